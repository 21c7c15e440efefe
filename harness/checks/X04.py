"""Containers of transformed grids: the histories of GridOps.tla replayed, padding against a plain reference."""
import numpy as np
import xarray as xr

import vlib
from vlib import THOROUGH, rng

from . import layercommon as lc  # noqa: F401
from . import spectrum as sp

PADS = {"default": (True, None), "none": (False, None)}


def pad_of(name, dims, size):
    """Arguments of the library and the corresponding numpy padding."""
    if name == "default":
        return (True, None), sp.default_pad(size)
    if name == "none":
        return (False, None), None
    w = {"width": ((3, 3), (2, 2)), "uneven-width": ((1, 3), (4, 2)), "one-side": ((0, 3), (0, 2)), "zero-width": ((0, 0), (3, 3)),
         "constant": ((2, 2), (3, 3)), "reflect": ((1, 1), (2, 2))}[name]
    kw = {"pad_width": {d: (a if a != b else a[0]) for d, (a, b) in zip(dims, zip(w, [(x[0], x[0]) for x in w]))}}
    mode, npkw = "edge", {}
    if name == "constant":
        kw.update(mode="constant", constant_values=1.5)
        mode, npkw = "constant", {"constant_values": 1.5}
    if name == "reflect":
        kw.update(mode="reflect")
        mode = "reflect"
    return (True, kw), (w, mode, npkw)


def build(case, g):
    gr = case["grid0"]
    size, dims = tuple(gr["size"]), tuple(gr["dims"])
    y = -40.0 + 2.5 * np.arange(size[0])
    x = 3e5 + 4.0 * np.arange(size[1])
    if gr["kind"] == "uneven-y":
        y[size[0] // 2] += 0.4
    if gr["kind"] == "uneven-x":
        x[-1] += 0.4
    y, x = (y[::-1].copy() if gr["dir"][0] < 0 else y), (x[::-1].copy() if gr["dir"][1] < 0 else x)
    data = g.normal(size=size) * 10
    if gr["int"]:
        data = np.round(data).astype(int)
    if gr["kind"] in ("nan", "nan-corner"):
        data = data.astype(float)
        data[(size[0] // 2, size[1] // 3) if gr["kind"] == "nan" else (-1, -1)] = np.nan
    coords = {dims[0]: (dims[0], y, {"units": "m"}), dims[1]: (dims[1], x, {"units": "m"})}
    if "height" in gr["extras"]:
        coords["height"] = (dims, np.add.outer(y, x))
    if "epoch" in gr["extras"]:
        coords["epoch"] = 12.0
    if "station" in gr["extras"]:
        coords["station"] = (dims[0], np.arange(size[0]) * 7 % 5)
    da = xr.DataArray(data, coords=coords, dims=dims, name="field", attrs={"units": "nT"})
    if gr["kind"] == "line":
        return da.isel({dims[1]: 0}, drop=True)
    if gr["kind"] == "cube":
        return da.expand_dims({"level": [1.0, 2.0]})
    return da


def run(hm, op, da, pad, pk):
    kw = dict(pad=pad)
    if pk is not None or pad:
        kw["pad_kwargs"] = pk
    fn = {"up": hm.derivative_upward, "cont": lambda d, **k: hm.upward_continuation(d, 3.0, **k), "low": lambda d, **k: hm.gaussian_lowpass(d, 20.0, **k),
          "high": lambda d, **k: hm.gaussian_highpass(d, 20.0, **k), "pole": lambda d, **k: hm.reduction_to_pole(d, 50.0, 10.0, -40.0, 30.0, **k),
          "east-fft": lambda d, **k: hm.derivative_easting(d, method="fft", **k), "north-fft": lambda d, **k: hm.derivative_northing(d, method="fft", **k),
          "east": hm.derivative_easting, "north": hm.derivative_northing, "tga": hm.total_gradient_amplitude, "tilt": hm.tilt_angle}[op]
    return fn(da, **kw)


def histories(c, hm, cases, salt):
    g = rng(salt)
    for case in cases:
        gr = case["grid0"]
        da = build(case, g)
        coords0 = {k: da[k].values.copy() for k in da.coords}
        tag = f"{[(t['op'], t['pad']) for t in case['trail']]} on {gr}"
        ok = True
        for i, t in enumerate(case["trail"]):
            (pad, pk), _ = pad_of(t["pad"], tuple(gr["dims"]), tuple(gr["size"]))
            keep, keep_pk = da.copy(deep=True), None if pk is None else {k: (dict(v) if isinstance(v, dict) else v) for k, v in pk.items()}
            last = i == len(case["trail"]) - 1
            if last and case["outcome"] == "refused":
                c.raises(f"{tag}", ValueError, run, hm, t["op"], da, pad, pk)
                c.validated(1, "refused")
                ok = False
            else:
                out = c.call(tag, run, hm, t["op"], da, pad, pk)
                if out is None:
                    ok = False
                    break
                again = c.call(tag, run, hm, t["op"], da, pad, pk)
                c.true(again is not None and again.identical(out), f"{tag}: the second call gives another result", case=case)
            c.true(da.identical(keep), f"{tag}: the grid passed was modified", case=case)
            c.true(pk == keep_pk, f"{tag}: pad_kwargs was modified: {pk}", case=case)
            if not ok:
                break
            da = out
        if not ok:
            continue
        want = case["grid"]
        c.equal((da.dims, da.shape), (tuple(want["dims"]), tuple(want["size"])), f"{tag}: dimensions and shape", case=case)
        c.equal(sorted(k for k in da.coords if k not in da.dims), sorted(want["extras"]), f"{tag}: additional coordinates", case=case)
        for k in da.coords:
            c.true(k in coords0 and np.array_equal(coords0[k], da[k].values), f"{tag}: coordinate {k} changed", case=case)
        if case["grid"]["kind"] == "good":
            c.true(bool(np.isfinite(da.values).all()), f"{tag}: values that are not finite", case=case)
        for t in case["trail"]:
            c.validated(1, "op:" + t["op"])
            c.validated(1, "pad:" + t["pad"], case)


def padding(c, hm, terms, salt):
    """A padded transformation is the plain one of the grid padded by hand, cut to the original nodes."""
    call = sp.functions(hm)
    g = rng(salt)
    for n, (key, (o, term)) in enumerate(sorted(terms.items())):
        for name in ("default", "none", "width", "uneven-width", "one-side", "zero-width", "constant", "reflect"):
            fr = sp.Frame((307, 421) if n % 5 == 3 and name in ("default", "none", "uneven-width", "constant") else [(12, 10), (9, 7), (6, 13), (3, 5)][n % 4], g)
            a = g.normal(size=(fr.ny, fr.nx)) + 3
            (pad, pk), ref = pad_of(name, fr.dims, a.shape)
            out = c.call(f"{o['op']} with padding {name}", call, o, fr.wrap(a), fr, pad=pad, pad_kwargs=pk)
            if out is None:
                continue
            # pad widths count from the first row and column of the array as it is stored
            if ref is not None:
                w = ref[0]
                ref = ((w[0][::-1] if fr.desc[0] else w[0], w[1][::-1] if fr.desc[1] else w[1]), ref[1], ref[2])
            want = sp.discrete(a, term, fr, ref)
            c.close(fr.unwrap(out), want, f"{o} with padding {name} ({pk}, descending {fr.desc})", rtol=1e-9, scale=float(np.abs(want).max()))
            c.validated(1, "padded")


def check(c):
    import harmonica as hm

    inv = dict(invariants=["OnlyBadRefused", "Emit"], properties=["Nodes", "NoNewExtras"])
    k = dict(Sizes="{<<12, 10>>, <<7, 9>>, <<3, 6>>}", Names='{<<"northing", "easting">>, <<"latitude", "longitude">>, <<"easting", "northing">>}')
    ex = c.tlc("GridOps", constants=dict(k, MaxSteps=1), **inv)
    si = c.tlc("GridOps", constants=dict(k, MaxSteps=3), simulate=150 if THOROUGH else 15, depth=4, seed=vlib.SEED + 9, **inv)
    first = {}
    for case in ex.cases + si.cases:
        # the initial container: extras only ever shrink, int only concerns the input
        case["grid0"] = dict(case["grid"], extras=case["first"])
        first.setdefault(case["trail"][-1]["op"] + str(len(case["trail"])) + case["outcome"], []).append(case)
    g = rng(81)
    picked = []
    for key in sorted(first):
        ks = first[key]
        idx = g.permutation(len(ks))[: 400 if THOROUGH else 30]
        picked += [ks[i] for i in idx]
    gains = sp.spec(c, depth=1)
    terms = {sp.op_key(q["op"]): (q["op"], q["term"]) for q in gains.cases if q["kind"] == "gain"}
    q = len(picked) // 5 + 1
    c.parts(*[lambda s, i=i: histories(s, hm, picked[i * q:(i + 1) * q], 90 + i) for i in range(5)], lambda s: padding(s, hm, terms, 99))
    c.require("refused", 40)
    c.require("padded", 60)
    for p in ("default", "none", "width", "uneven-width", "one-side", "zero-width", "constant", "reflect"):
        c.require("pad:" + p, 10)
    for o in ("up", "cont", "low", "high", "pole", "east-fft", "north-fft", "east", "north", "tga", "tilt"):
        c.require("op:" + o, 10)
