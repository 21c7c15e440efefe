"""Airy isostasy: the columns of Isostasy.tla replayed on isostatic_moho_airy."""
import numpy as np
import xarray as xr

from vlib import THOROUGH, rng


def snapshot(layers):
    return {k: (np.array(t, copy=True), np.array(d, copy=True)) for k, (t, d) in layers.items()}


def same(a, b):
    return list(a) == list(b) and all(np.array_equal(a[k][i], b[k][i]) for k in a for i in (0, 1))


def check(c):
    import harmonica as hm

    r = c.tlc("Isostasy", constants=dict(Heights="{-3, 0, 4}", Thicknesses="{0, 1, 3}", Densities="{1, 2}", Crusts="{3}", Mantles="{4, 5}" if not THOROUGH else "{4, 5, 7}",
                                         References="{0, 10}", MaxLayers=3, MaxSteps=4 if THOROUGH else 3),
              invariants=["Balanced", "Emit"], properties=["Same", "Deeper"])
    cases = list({str((k["h"], k["layers"], k["mantle"], k["ref"])): k for k in r.cases}.values())
    g = rng(401)
    order = g.permutation(len(cases))
    names = ["sediments", "water", "ice"]

    def named(layers, kind):
        return {names[i]: (kind(q["t"]), kind(q["d"])) for i, q in enumerate(layers)}

    # scalars: floats, integers and numpy scalars
    kinds = [float, int, np.float64, np.int64, lambda v: np.asarray(v, dtype=float)]
    for pos in order[:20000 if THOROUGH else 3000]:
        k = cases[pos]
        kind = kinds[pos % len(kinds)]
        layers = named(k["layers"], kind)
        arg = None if not layers and pos % 2 else layers
        keep = snapshot(layers)
        got = c.call("moho", hm.isostatic_moho_airy, kind(k["h"]), layers=arg, density_crust=kind(k["crust"]), density_mantle=kind(k["mantle"]), reference_depth=kind(k["ref"]))
        if got is None:
            continue
        c.close(got, k["num"] / k["den"], f"isostatic Moho of {k}", rtol=1e-12, atol=1e-12)
        c.true(same(keep, snapshot(layers)), "isostatic_moho_airy modified its layers", case=k)
        c.validated(1, "scalar", k)
    # default densities and reference
    for k in cases[:40]:
        layers = named(k["layers"], float)
        got = c.call("moho", hm.isostatic_moho_airy, 100.0 * k["h"], layers)
        load = sum(q["t"] * q["d"] for q in k["layers"])
        c.close(got, 30e3 + (2.8e3 * 100 * k["h"] + load) / 500, "isostatic Moho with default densities", rtol=1e-12)
    # arrays and grids: many columns of the specification at once
    by = {}
    for k in cases:
        by.setdefault(len(k["layers"]), []).append(k)
    for n, ks in sorted(by.items()):
        for trial in range(24 if THOROUGH else 10):
            shape = [(6,), (3, 4), (2, 3, 2), (1, 1), (5, 1)][trial % 5]
            pick = [ks[i] for i in g.integers(0, len(ks), int(np.prod(shape)))]
            integer = trial % 3 == 1
            conv = (lambda a: np.asarray(a, dtype=int).reshape(shape)) if integer else (lambda a: np.asarray(a, dtype=float).reshape(shape))
            h, mantle, ref = (conv([k[q] for k in pick]) for q in ("h", "mantle", "ref"))
            crust = conv([k["crust"] for k in pick]) if trial % 2 else pick[0]["crust"]
            layers = {names[i]: (conv([k["layers"][i]["t"] for k in pick]), conv([k["layers"][i]["d"] for k in pick])) for i in range(n)}
            want = np.array([k["num"] / k["den"] for k in pick]).reshape(shape)
            args = dict(density_crust=crust, density_mantle=mantle, reference_depth=ref)
            copies = {q: np.array(v, copy=True) for q, v in args.items()}
            keep, hk = snapshot(layers), h.copy()
            got = c.call("moho of arrays", hm.isostatic_moho_airy, h, layers=layers, **args)
            if got is not None:
                c.close(got, want, f"isostatic Moho of arrays ({n} layers, shape {shape}, integer {integer})", rtol=1e-12, atol=1e-12)
                c.true(same(keep, snapshot(layers)) and np.array_equal(h, hk) and all(np.array_equal(copies[q], args[q]) for q in args),
                       "isostatic_moho_airy modified its arguments", layers=n)
                c.validated(1, "array")
            if len(shape) != 2:
                continue
            dims = ("northing", "easting") if trial % 2 else ("latitude", "longitude")
            coords = {dims[0]: np.arange(shape[0]) * 7.0, dims[1]: np.arange(shape[1]) * 3.0}
            wrap = lambda a: xr.DataArray(a, coords=coords, dims=dims, name="given", attrs={"origin": "x"})  # noqa: E731
            gl = {q: (wrap(t), d if trial % 2 else wrap(d)) for q, (t, d) in layers.items()}
            gh, gm, gr = wrap(h), wrap(mantle), wrap(ref)
            before = [q.copy(deep=True) for q in (gh, gm, gr)] + [t.copy(deep=True) for t, _ in gl.values()]
            got = c.call("moho of grids", hm.isostatic_moho_airy, gh, layers=gl, density_crust=crust, density_mantle=gm, reference_depth=gr)
            if got is None:
                continue
            c.true(isinstance(got, xr.DataArray) and got.dims == dims and all(np.array_equal(got[d], coords[d]) for d in dims), "the Moho of grids is a grid on the same coordinates")
            c.close(np.asarray(got), want, f"isostatic Moho of grids ({n} layers)", rtol=1e-12, atol=1e-12)
            c.true(all(a.identical(b) for a, b in zip(before, [gh, gm, gr] + [t for t, _ in gl.values()])), "isostatic_moho_airy modified the grids it was given")
            c.validated(1, "grid")
    # heights and thicknesses in metres as small integers, the way grids are stored
    for n, ks in sorted(by.items()):
        for trial in range(30 if THOROUGH else 12):
            pick = [ks[i] for i in g.integers(0, len(ks), 6)]
            dtype = (np.int16, np.int32, np.uint16, np.float32)[trial % 4]
            unit = 1000 if trial % 4 else 2000
            h = np.array([k["h"] for k in pick]) * unit
            h = h.astype(dtype if dtype is not np.uint16 else np.int16)
            crust, mantle, rho = pick[0]["crust"] * 1000, pick[0]["mantle"] * 1000, [q["d"] * 1000 for q in pick[0]["layers"]]
            layers = {names[i]: ((np.array([k["layers"][i]["t"] for k in pick]) * unit).astype(dtype), rho[i] if trial % 2 else np.int16(rho[i])) for i in range(n)}
            want = [30e3 + (crust * k["h"] * unit + sum(q["t"] * unit * d for q, d in zip(k["layers"], rho))) / (mantle - crust) for k in pick]
            keep = snapshot(layers)
            got = c.call("moho of small integers", hm.isostatic_moho_airy, h, layers=layers, density_crust=crust, density_mantle=mantle)
            if got is not None:
                c.close(got, np.array(want), f"isostatic Moho of arrays of {np.dtype(dtype)} ({n} layers)", rtol=1e-12 if dtype is not np.float32 else 1e-5, layers=layers)
                c.true(same(keep, snapshot(layers)), "isostatic_moho_airy modified its layers")
                c.validated(1, "types")
    # broadcasting: a profile of thicknesses over scalar or single-row basements, in both orders
    for k in [q for q in cases if len(q["layers"]) == 2][:60]:
        a, b = k["layers"]
        for first in (0, 1):
            pair = [(np.full((4, 1), float(a["t"])), a["d"]), (np.full((1, 3), b["t"]), float(b["d"]))]
            if first:
                pair.reverse()
            got = c.call("moho broadcast", hm.isostatic_moho_airy, k["h"], layers=dict(zip(names, pair)), density_crust=k["crust"], density_mantle=k["mantle"], reference_depth=k["ref"])
            if got is not None:
                c.close(got, np.full((4, 3), k["num"] / k["den"]), "isostatic Moho of broadcasting layers", rtol=1e-12, atol=1e-12)
                c.validated(1, "broadcast")
    c.require("scalar", 500)
    c.require("array", 30)
    c.require("grid", 10)
    c.require("types", 30)
    c.require("broadcast", 50)
