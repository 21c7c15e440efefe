"""Total gradient amplitude and tilt: the terms and symmetries of Gradient.tla replayed on grids."""
import numpy as np
import xarray as xr

import vlib
from vlib import THOROUGH, ev, rng

from . import spectrum as sp

L = np.longdouble


def grids(g, n):
    for i in range(n):
        fr = sp.Frame([(12, 10), (9, 7), (4, 15), (16, 5), (3, 3)][i % 5], g)
        kind = i % 8
        y, x = np.meshgrid(np.arange(fr.ny), np.arange(fr.nx), indexing="ij")
        if kind == 0:
            a = g.normal(size=(fr.ny, fr.nx))
        elif kind == 1:
            a = 2.0 * x - 3.0 * y
        elif kind == 2:
            a = np.exp(-((x - 3.0) ** 2 + (y - 4.0) ** 2) / 7)
        elif kind == 3:
            a = np.cos(2 * np.pi * x / fr.nx) * 1e6
        elif kind == 4:
            a = np.where((x + y) % 3 == 0, 1e-9, 0)
        elif kind == 5:
            a = x * y * 1.0 + 1e3
        elif kind == 6:
            a = 0.0 * x
        else:  # all of the anomaly in one corner: derivatives along lines and zeros
            a = np.where((x == 0) & (y == 0), 4.0, 0.0)
        yield fr, a
    fr = sp.Frame((307, 421), g)
    yield fr, g.normal(size=(fr.ny, fr.nx))


def check_terms(c, hm, terms):
    for fr, a in grids(rng(71), 80 if THOROUGH else 24):
        for pad, pk in ((True, None), (False, None), (True, {"mode": "reflect"}), (True, {"pad_width": dict(zip(fr.dims, (2, 1)))})):
            grid = fr.wrap(a)
            keep = grid.copy(deep=True)
            de = c.call("derivative", hm.derivative_easting, grid)
            dn = c.call("derivative", hm.derivative_northing, grid)
            du = c.call("derivative", hm.derivative_upward, grid, pad=pad, pad_kwargs=None if pk is None else dict(pk))
            if de is None or dn is None or du is None:
                continue
            env = {k: v.transpose(*fr.dims).values.astype(L) for k, v in zip("enu", (de, dn, du))}
            kw = None if pk is None else dict(pk)
            for name, fn in (("tga", hm.total_gradient_amplitude), ("tilt", hm.tilt_angle)):
                out = c.call(name, fn, grid, pad=pad, pad_kwargs=kw)
                if out is None:
                    continue
                want = ev(terms[name], env).astype(float)
                c.equal((out.dims, out.shape), (grid.dims, grid.shape), f"dimensions of {name}")
                c.close(out.values, want, f"{name} (pad={pad}, {pk}, dims {fr.dims})", rtol=1e-10, atol=1e-12 if name == "tilt" else float(want.max()) * 1e-14)
                if name == "tilt":
                    c.true(bool((np.abs(out.values) <= np.pi / 2).all()), "tilt angles lie between -pi/2 and pi/2")
                c.true(grid.identical(keep) and kw == pk, f"{name} modified its arguments")
                c.validated(1, name)


def check_changes(c, hm, cases):
    """Scaling, mirroring and exchanging axes of a grid with square cells act as on the derivatives."""
    g = rng(72)
    for pos, k in enumerate(cases):
        fr = sp.Frame([(12, 10), (9, 7), (10, 10)][pos % 3], g, descending=(False, False))
        a = g.normal(size=(fr.ny, fr.nx))
        fr.dx = fr.dy
        fr.x = fr.x0 + fr.dx * np.arange(fr.nx)
        for pad in (True, False):
            base = fr.wrap(a, extra=False)
            now = base.copy()
            back = []
            factor, sign = 1.0, 1.0
            for ch in k["changes"]:
                if ch["op"] == "scale":
                    now = now * ch["k"]
                    factor *= abs(ch["k"])
                    sign *= np.sign(ch["k"])
                elif ch["op"] == "swap":  # exchange the roles of the two dimensions
                    now = xr.DataArray(now.values.T.copy(), coords={fr.dims[0]: now[now.dims[1]].values, fr.dims[1]: now[now.dims[0]].values}, dims=fr.dims)
                    back.append(("swap", None))
                else:
                    ax = 1 if ch["op"] == "mirror-e" else 0
                    now = now.copy(data=np.flip(now.values, ax))
                    back.append(("flip", ax))
            for name, fn in (("tga", hm.total_gradient_amplitude), ("tilt", hm.tilt_angle)):
                one, two = c.call(name, fn, base, pad=pad), c.call(name, fn, now, pad=pad)
                if one is None or two is None:
                    continue
                v = two.values
                for kind, ax in reversed(back):
                    v = v.T if kind == "swap" else np.flip(v, ax)
                want = one.values * (factor if name == "tga" else sign)
                c.close(v, want, f"{name} after {k['changes']} (pad={pad})", rtol=1e-8, atol=1e-8)
        c.validated(1, "changes", k)


def check(c):
    import harmonica as hm

    r = c.tlc("Gradient", constants=dict(Range="{-2, -1, 0, 1, 2}", Factors="{3, -2}", MaxSteps=3 if THOROUGH else 2),
              invariants=["Range90", "Emit", "EmitChanges"], properties=["Amplitude", "Tilt"])
    terms = [k for k in r.cases if k["kind"] == "def"][0]
    seen, cases = set(), []
    for k in r.cases:
        if k["kind"] == "case" and str(k["changes"]) not in seen:
            seen.add(str(k["changes"]))
            cases.append(k)
    c.parts(lambda s: check_terms(s, hm, terms), lambda s: check_changes(s, hm, cases))
    for f in (hm.total_gradient_amplitude, hm.tilt_angle):
        bad = xr.DataArray(np.array([[1, 2, 3.0], [2, np.nan, 1], [3, 1, 2], [2, 2, 1]]), coords={"y": np.arange(4.0), "x": np.arange(3.0)}, dims=("y", "x"))
        c.raises(f"{f.__name__} of a grid with NaN", ValueError, f, bad)
        c.raises(f"{f.__name__} of a profile", ValueError, f, bad[:, 0].drop_vars("x"))
    c.require("tga", 50)
    c.require("tilt", 50)
    c.require("changes", 20)
