"""Reduction to the pole: pipelines of Spectrum.tla replayed, defaults and equivalent angles."""
import numpy as np

import vlib
from vlib import THOROUGH, rng

from . import spectrum as sp


def whole(c, hm, gains):
    """Random grids (all modes and a mean at once), with and without padding, against the discrete reference."""
    g = rng(51)
    for n, (key, (o, term)) in enumerate(sorted(gains.items())):
        for rep in [*range(4 if THOROUGH else 1), *(["big"] if n % 12 == 5 else [])]:
            fr = sp.Frame((307, 421) if rep == "big" else [(12, 10), (9, 7), (11, 16), (5, 14)][(n + rep) % 4], g)
            a = g.normal(size=(fr.ny, fr.nx)) + 5.0
            f, m = o["f"], o["m"]
            calls = [("all angles", (f[0], f[1], m[0], m[1]), {})]
            turned = dict(magnetization_inclination=180 - m[0], magnetization_declination=m[1] + 180)
            calls += [("equivalent magnetization", (f[0], f[1]), turned),
                      ("full turns", (f[0] + 360, f[1] - 360, m[0] - 360, m[1] + 720), {}),
                      ("swapped", (m[0], m[1], f[0], f[1]), {}),
                      ("floats", tuple(float(v) for v in (f[0], f[1], m[0], m[1])), {}),
                      ("reversed", (-f[0], f[1] + 180, -m[0], m[1] + 180), {})]
            if f == m:
                calls += [("induced", tuple(f), {}), ("induced by name", (), dict(inclination=f[0], declination=f[1]))]
            if f[1] == m[1]:
                calls.append(("only the inclination of the magnetization", tuple(f), dict(magnetization_inclination=m[0])))
            if f[0] == m[0]:
                calls.append(("only the declination of the magnetization", tuple(f), dict(magnetization_declination=m[1])))
            for pad in (True, False):
                want = sp.discrete(a, term, fr, sp.default_pad(a.shape) if pad else None)
                grid = fr.wrap(a)
                keep = grid.copy(deep=True)
                for name, args, kw in calls:
                    out = c.call(f"reduction to the pole {name}", hm.reduction_to_pole, grid, *args, pad=pad, **kw)
                    if out is None:
                        continue
                    c.close(fr.unwrap(out), want, f"reduction to the pole ({name} {args} {kw}, pad={pad}) of a random grid", rtol=1e-8,
                            scale=float(np.abs(want).max()), field=f, magnetization=m)
                    c.validated(1, name if rep != "big" else "big")
                    if not pad and name == "all angles":
                        c.true(abs(float(out.mean())) < 1e-8 * float(np.abs(want).max()), "the mean of a reduced grid is zero")
                c.true(grid.identical(keep), "reduction to the pole modified the grid")
                if abs(f[0]) == 90 and f[0] == m[0]:
                    want = a - a.mean() if not pad else None
                    if want is not None:
                        out = c.call("pole", hm.reduction_to_pole, grid, *f, *m, pad=False)
                        c.close(fr.unwrap(out), want, "data at the pole are unchanged", rtol=1e-9, scale=5.0)
                        c.validated(1, "vertical")


def kernels(c, hm, gains):
    from .X01 import kernel_gains

    kernel_gains(c, hm, gains)


def check(c):
    import harmonica as hm

    ex = sp.spec(c, ops="pole", depth=1)
    gains = {sp.op_key(k["op"]): (k["op"], k["term"]) for k in ex.cases if k["kind"] == "gain"}
    terms = {k: v[1] for k, v in gains.items()}
    cases = [k for k in ex.cases if k["kind"] == "case" and k["pipe"][0]["op"] == "pole"]
    si = sp.spec(c, ops="pole", depth=3, simulate=200 if THOROUGH else 10, seed=vlib.SEED + 6)
    mixed = [k for k in si.cases if k["kind"] == "case" and len(k["pipe"]) > 1 and any(o["op"] == "pole" for o in k["pipe"])]
    pole = {k: v for k, v in gains.items() if v[0]["op"] == "pole"}
    half = dict(sorted(pole.items())[::2]), dict(sorted(pole.items())[1::2])
    c.parts(lambda s: whole(s, hm, half[0]), lambda s: whole(s, hm, half[1]), lambda s: kernels(s, hm, pole),
            lambda s: sp.replay_modes(s, hm, cases, terms, 61), lambda s: sp.replay_modes(s, hm, cases, terms, 62),
            lambda s: sp.replay_modes(s, hm, mixed, terms, 63))
    c.require("op:pole", 200)
    for k in ("all angles", "induced", "only the inclination of the magnetization", "only the declination of the magnetization", "vertical", "kernel", "big"):
        c.require(k, 4)
