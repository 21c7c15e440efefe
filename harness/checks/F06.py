"""Prism gravity: all 125 relative positions x fields of PrismField.tla, against the specified closed forms."""
import numpy as np

from checks.prismcommon import G, INVS, L, MAPS, obs_of, prism_of, random_map, spec_values
from vlib import THOROUGH, rng


def check(c):
    import harmonica as hm

    spec = c.tlc("PrismField", invariants=INVS)
    defs = {k["field"]: k for k in spec.cases if k["kind"] == "def"}
    g = rng(6)
    maps = dict(MAPS)
    for i in range(8 if THOROUGH else 3):
        maps[f"random{i}"] = random_map(g)
    for name, m in maps.items():
        prism = prism_of(m)
        traces = {}
        for f, d in sorted(defs.items()):
            ks = [k for k in spec.cases if k["kind"] == "case" and k["field"] == f]
            ks.sort(key=lambda k: k["pos"])
            poss = [k["pos"] for k in ks]
            obs = obs_of(m, poss)
            sing = np.array([k["singular"] for k in ks])
            for rho, par in ((2670.0, True), (-300.0, False), (2.0 ** -40, True)):
                want, scale = spec_values(d["corners"], obs, prism, d["unit"], G=G, rho=rho)
                want = np.where(sing, np.nan, want)
                got = c.call(f"prism_gravity {f}", hm.prism_gravity, obs, [prism], [rho], f, parallel=par)
                if got is None:
                    continue
                got = np.asarray(got, float)
                c.close(got, want, f"prism_gravity {f} on map {name} (density {rho}, parallel={par})", rtol=3e-11, scale=scale,
                        positions=poss, prism=prism)
                if rho > 1:
                    traces[f] = got
            c.validated(3 * len(ks), f, dict(field=f, map=name, pos=poss[0], prism=prism))
        if all(f in traces for f in ("g_ee", "g_nn", "g_zz")):
            tr = traces["g_ee"] + traces["g_nn"] + traces["g_zz"]
            ks = sorted((k for k in spec.cases if k["kind"] == "case" and k["field"] == "g_ee"), key=lambda k: k["pos"])
            unit = -4 * np.pi * G * 2670.0 * 1e9
            want = np.array([k["trace"] * unit for k in ks])
            ok = ~np.isnan(tr)
            c.close(tr[ok], want[ok], f"trace of the tensor on map {name}", rtol=1e-8, scale=abs(unit), prism=prism)
    # continuity of potential and acceleration across the surface
    for name, m in maps.items():
        prism = prism_of(m)
        for f in ("potential", "g_e", "g_n", "g_z"):
            poss = [(a, b, d) for a in range(5) for b in range(5) for d in range(5)]
            obs = obs_of(m, poss)
            got = c.call(f"prism_gravity {f}", hm.prism_gravity, obs, [prism], [1000.0], f)
            if got is not None:
                c.true(bool(np.isfinite(got).all()), f"prism_gravity {f} is not finite everywhere on map {name}")
                eps = 1e-7 * min(prism[1] - prism[0], prism[3] - prism[2], prism[5] - prism[4])
                for k in range(3):
                    for s in (-1, 1):
                        o2 = [np.array(o) for o in obs]
                        o2[k] = o2[k] + s * eps
                        near = c.call(f"prism_gravity {f}", hm.prism_gravity, tuple(o2), [prism], [1000.0], f)
                        if near is not None:
                            c.close(near, got, f"continuity of {f} on map {name}", rtol=0, atol=2e-5 * float(np.abs(got).max()))
            c.validated(6 * len(poss), "continuity")
    # random collections, random points (far and near, above and below)
    for rep in range(10 if THOROUGH else 3):
        n = int(g.integers(2, 7))
        lo = g.uniform(-1000, 900, (n, 3))
        hi = lo + g.uniform(1, 600, (n, 3))
        prisms = np.stack([lo[:, 0], hi[:, 0], lo[:, 1], hi[:, 1], lo[:, 2], hi[:, 2]], axis=1)
        rho = g.normal(0, 1000, n)
        no = 25
        obs = tuple(g.uniform(-2500, 2500, no) for _ in range(3))
        for f, d in sorted(defs.items()):
            tot, sc = 0, 0
            for p, r in zip(prisms, rho):
                w, s = spec_values(d["corners"], obs, p, d["unit"], G=G, rho=r)
                tot, sc = tot + w, sc + s
            if f in ("g_ee", "g_nn", "g_zz"):
                pass  # interior points included: the closed form holds inside too
            got = c.call(f"prism_gravity {f}", hm.prism_gravity, obs, prisms, rho, f)
            if got is not None:
                c.close(got, tot, f"prism_gravity {f} of {n} prisms", rtol=3e-11, scale=sc, prisms=prisms, rho=rho, obs=obs)
            c.validated(no, "random")
    for f in defs:
        c.require(f, 100)
