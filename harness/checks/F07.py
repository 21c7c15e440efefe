"""Prism magnetics: all 125 relative positions x fields x magnetization directions of PrismField.tla."""
import numpy as np

from checks.prismcommon import INVS, MAPS, L, obs_of, prism_of, random_map, spec_values
from vlib import THOROUGH, rng

ORDER = ["b_e", "b_n", "b_u"]


def check(c):
    import choclo.constants
    import harmonica as hm

    mu0 = choclo.constants.VACUUM_MAGNETIC_PERMEABILITY
    spec = c.tlc("PrismField", invariants=INVS)
    defs = {k["field"]: k for k in spec.cases if k["kind"] == "mdef"}
    g = rng(7)
    maps = dict(MAPS)
    for i in range(8 if THOROUGH else 2):
        maps[f"random{i}"] = random_map(g)
    mags = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (3.0, -2.0, 5.0), (-0.5, 0.25, 0.0), (1.0, -1.0, 0.0), (2.0, -3.0, 1.0), (0.0, 2.0 ** -40, -2.0 ** -40)]
    for name, m in maps.items():
        prism = prism_of(m)
        ks = sorted((k for k in spec.cases if k["kind"] == "mcase" and k["field"] == "b_e"), key=lambda k: k["pos"])
        poss = [k["pos"] for k in ks]
        obs = obs_of(m, poss)
        sing = np.array([k["singular"] for k in ks])
        for n, mag in enumerate(mags):
            want, scale = {}, 0
            for f in ORDER:
                w, s = spec_values(defs[f]["corners"], obs, prism, 9, mu0=mu0, me=mag[0], mn=mag[1], mu=mag[2])
                want[f] = np.where(sing, np.nan, w)
                scale = scale + s
            par = n % 2 == 0
            mm = tuple([x] for x in mag)
            b = c.call("prism_magnetic b", hm.prism_magnetic, obs, [prism], mm, "b", parallel=par)
            if b is not None and c.equal(len(b), 3, "number of components of b"):
                for f, comp in zip(ORDER, b):
                    c.close(comp, want[f], f"prism_magnetic b[{f}] on map {name} magnetization {mag} parallel={par}", rtol=3e-11,
                            scale=scale, positions=poss, prism=prism)
            for f in ORDER:
                s = c.call(f"prism_magnetic {f}", hm.prism_magnetic, obs, [prism], mm, f, parallel=not par)
                if s is not None:
                    c.close(s, want[f], f"prism_magnetic {f} on map {name} magnetization {mag} parallel={not par}", rtol=3e-11,
                            scale=scale, positions=poss, prism=prism)
            c.validated(len(ks) * 6, "placed", dict(map=name, pos=poss[0], prism=prism, magnetization=mag))
    for rep in range(10 if THOROUGH else 3):
        n = int(g.integers(2, 7))
        lo = g.uniform(-1000, 900, (n, 3))
        hi = lo + g.uniform(1, 600, (n, 3))
        prisms = np.stack([lo[:, 0], hi[:, 0], lo[:, 1], hi[:, 1], lo[:, 2], hi[:, 2]], axis=1)
        mag = g.normal(0, 10, (3, n))
        obs = (g.uniform(-2500, 2500, 25), g.uniform(-2500, 2500, 25), g.choice([-1, 1], 25) * g.uniform(1550, 2500, 25))
        tot, sc = {}, 0
        for f in ORDER:
            tot[f] = 0
            for j in range(n):
                w, s = spec_values(defs[f]["corners"], obs, prisms[j], 9, mu0=mu0, me=mag[0, j], mn=mag[1, j], mu=mag[2, j])
                tot[f], sc = tot[f] + w, sc + s
        for par in (True, False):
            b = c.call("prism_magnetic b", hm.prism_magnetic, obs, prisms, mag, "b", parallel=par)
            for i, f in enumerate(ORDER):
                if b is not None:
                    c.close(b[i], tot[f], f"prism_magnetic b[{f}] of {n} prisms", rtol=3e-11, scale=sc)
                s = c.call(f"prism_magnetic {f}", hm.prism_magnetic, obs, prisms, mag, f, parallel=par)
                if s is not None:
                    c.close(s, tot[f], f"prism_magnetic {f} of {n} prisms", rtol=3e-11, scale=sc)
        c.validated(25 * 12, "random")
    c.require("placed", 1000)
