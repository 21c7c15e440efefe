"""Singular points: NaN exactly there, a warning exactly for gravity tensors with such a point."""
import warnings

import numpy as np

from checks.prismcommon import MAPS, prism_of
from vlib import THOROUGH, rng

OFFSETS = [(0.0, 0.0, 0.0), (20000.0, -30000.0, 500.0), (-44000.0, 15000.0, -2000.0)]
# coordinates that take all digits of a float
DIGITS = [(1 / 3, -20 / 7, 0.1), (20000 + 1 / 7, -30000 - 2 / 3, 500 + 1 / 9), (-44000.1, 15000 + 1 / 11, -2000 - 1 / 3)]


def check(c):
    import harmonica as hm

    invs = ["InvWarnIffNaN", "SEmit"]
    spec = c.tlc("PrismSingular", constants=dict(NPrisms=3, MaxBatch=1), spec="SSpec", invariants=invs, properties=["MaskMonotone"])
    cases = list(spec.cases)
    sim = c.tlc("PrismSingular", constants=dict(NPrisms=3, MaxBatch=4), spec="SSpec", invariants=invs,
                simulate=30000 if THOROUGH else 3000, depth=6)
    cases += sim.cases
    base = MAPS["plate"]
    null_prism = [900000.0, 900010.0, 0.0, 0.0, -10.0, 0.0]
    frames = []
    for off in (OFFSETS, DIGITS):
        maps = [[tuple(v + off[q][k] for v in base[k]) for k in range(3)] for q in range(3)]
        frames.append((maps, [prism_of(m) for m in maps]))
    rho = [2670.0, -300.0, 1.5]
    mag = ([1.0, -2.0, 0.5], [0.3, 4.0, -1.0], [2.0, 0.0, 1.0])
    n = 0
    for k in cases:
        f = k["field"]
        maps, prisms = frames[n // 2 % 2]
        obs = tuple(np.array([maps[b["prism"] - 1][ax][b["pos"][ax]] for b in k["batch"]]) for ax in range(3))
        n += 1
        par = n % 3 == 0
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                if f.startswith("b_"):
                    r = hm.prism_magnetic(obs, prisms, mag, f, parallel=par)
                else:
                    r = hm.prism_gravity(obs, prisms, rho, f, parallel=par)
            except Exception as e:  # noqa: BLE001
                c.violation(f"{f} raised {type(e).__name__}: {e}", case=k)
                continue
        warned = any(issubclass(x.category, UserWarning) for x in w)
        c.equal(warned, k["warns"], f"{f}: warning about singular points for batch {k['batch']}", case=k)
        mask = [not bool(v) for v in np.isfinite(r)]
        c.equal(mask, k["mask"], f"{f}: non-finite values for batch {k['batch']}", case=k)
        c.validated(1, f, k if n % 2000 == 1 else None)
        if n % 7 == 0:
            if f.startswith("b_"):
                b = c.call(f"prism_magnetic b", hm.prism_magnetic, obs, prisms, mag, "b", parallel=par)
                if b is not None:
                    for comp in b:
                        c.equal([not bool(v) for v in np.isfinite(comp)], k["mask"], f"b: non-finite values for batch {k['batch']}", case=k)
            else:
                with warnings.catch_warnings(record=True) as w2:
                    warnings.simplefilter("always")
                    r2 = hm.prism_gravity(obs, prisms, rho, f, parallel=par, disable_checks=True)
                c.close(r2, r, f"{f}: value with disabled checks", rtol=1e-12, case=k)
    # one singular pair among very many
    warning = {}
    for k in spec.cases:
        if k["warns"] and len(k["batch"]) == 1 and set(k["batch"][0]["pos"]) <= {1, 2, 3}:
            warning.setdefault(k["field"], []).append(k["batch"][0]["pos"])
    g = rng(808)
    for trial in range(40 if THOROUGH else 12):
        np_, no = [(1, 200003), (3, 100003), (1009, 307), (20011, 11)][trial % 4]
        field = ("g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz")[trial % 6]
        west, south, top = g.integers(-400, 400, np_) * 10.0, g.integers(-400, 400, np_) * 10.0, g.integers(-90, -10, np_) * 10.0
        many = np.stack([west, west + 5, south, south + 5, top - 5, top], axis=1)
        obs = [g.uniform(-5e3, 5e3, no), g.uniform(-5e3, 5e3, no), g.uniform(5, 50, no)]
        p, at = int(g.integers(np_)), int(g.integers(no))
        singular = trial % 5 != 4
        if singular:
            pos = warning[field][int(g.integers(len(warning[field])))]
            corner = [{1: many[p, 2 * q], 2: many[p, 2 * q] + 2.5, 3: many[p, 2 * q + 1]}[pos[q]] for q in range(3)]
            for q in range(3):
                obs[q][at] = corner[q]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = hm.prism_gravity(tuple(obs), many, np.ones(np_), field, parallel=trial % 2 == 0)
        warned = any(issubclass(x.category, UserWarning) for x in w)
        c.equal(warned, singular, f"{field}: warning about {int(singular)} singular of {no} points for {np_} prisms")
        c.equal(np.flatnonzero(~np.isfinite(r)).tolist(), [at] if singular else [], f"{field}: non-finite values at {no} points for {np_} prisms")
        c.validated(1, "bulk")
    # just off the singular features everything is finite and silent
    ones = [k for k in spec.cases if k["warns"] or (k["field"].startswith("b_") and k["mask"][0])]
    for n, k in enumerate(ones):
        maps, prisms = frames[n % 2]
        if k["field"].startswith("b_") and not any(x in (1, 3) for x in k["batch"][0]["pos"]):
            continue
        b = k["batch"][0]
        m = maps[b["prism"] - 1]
        # move every face coordinate outwards by a little
        xyz = [m[ax][p] + {1: -1e-3, 3: 1e-3}.get(p, 0.0) for ax, p in enumerate(b["pos"])]
        obs = tuple([v] for v in xyz)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = (hm.prism_magnetic(obs, prisms, mag, k["field"], parallel=False) if k["field"].startswith("b_")
                 else hm.prism_gravity(obs, prisms, rho, k["field"], parallel=False))
        c.true(bool(np.isfinite(r).all()), f"{k['field']}: not finite just outside {b['pos']}", case=k)
        c.true(not any(issubclass(x.category, UserWarning) for x in w), f"{k['field']}: warns just outside {b['pos']}", case=k)
        c.validated(1, "near")
    c.require("bulk", 12)
    for f in ("g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz", "b_e", "b_n", "b_u", "g_z"):
        c.require(f, 300)
