"""Dipoles: every case of PointField.tla replayed on dipole_magnetic."""
import numpy as np

from checks.F04 import REGIMES, pointspec
from vlib import THOROUGH, ev, rng

L = np.longdouble


def check(c):
    import choclo.constants
    import harmonica as hm

    mu0 = choclo.constants.VACUUM_MAGNETIC_PERMEABILITY
    spec = pointspec(c)
    defs = {k["field"]: k for k in spec.cases if k["kind"] == "mdef"}
    cases = [k for k in spec.cases if k["kind"] == "mcase"]
    order = ["b_e", "b_n", "b_u"]
    moments = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (3.0, -2.0, 5.0), (-1e3, 4.0, 0.5), (1.0, -1.0, 0.0), (2.0, -3.0, 1.0), (0.0, 4.0, -4.0)]
    offs = np.array([k["off"] for k in cases if k["field"] == "b_e"], dtype=float)
    by = {f: {tuple(k["off"]): k for k in cases if k["field"] == f} for f in order}
    for origin, scale, factor in REGIMES:
        obs = tuple(origin[i] + scale * offs[:, i] for i in range(3))
        dip = tuple([o] for o in origin)
        for mom in moments:
            mom = tuple(v * factor for v in mom)
            m = np.array(mom)
            want = {}
            for f in order:
                ks = [by[f][tuple(int(x) for x in o)] for o in offs]
                num = np.array([np.dot(np.array(k["nums"], L), np.asarray(m, L)) for k in ks])
                r2 = np.array([L(k["r2"]) for k in ks])
                want[f] = num / np.sqrt(r2) ** 5 / L(scale) ** 3 * L(mu0) / (4 * L(np.pi)) * L(10) ** 9
            sc = np.sqrt(sum(w.astype(float) ** 2 for w in want.values()))
            for par in (True, False):
                b = c.call("dipole_magnetic b", hm.dipole_magnetic, obs, dip, tuple([x] for x in mom), "b", parallel=par)
                if b is not None and c.equal(len(b), 3, "number of components of b"):
                    for f, comp in zip(order, b):
                        c.close(comp, want[f], f"dipole_magnetic b[{f}] moment {mom} parallel={par}", rtol=1e-11, scale=sc)
                for i, f in enumerate(order):
                    s = c.call(f"dipole_magnetic {f}", hm.dipole_magnetic, obs, dip, tuple([x] for x in mom), f, parallel=par)
                    if s is not None:
                        c.close(s, want[f], f"dipole_magnetic {f} moment {mom} parallel={par}", rtol=1e-11, scale=sc)
                        if b is not None:
                            c.close(s, b[i], f"dipole_magnetic {f} alone versus together", rtol=1e-13, scale=sc)
            c.validated(len(offs), "offsets", dict(moment=mom, off=offs[0]))
    g = rng(5)
    for rep in range(6 if THOROUGH else 3):
        ns, no = int(g.integers(2, 9)), int(g.integers(3, 40))
        dip = [g.uniform(-1e3, 1e3, ns), g.uniform(-1e3, 1e3, ns), g.uniform(-2e3, -1e2, ns)]
        mom = g.normal(0, 1e6, (3, ns))
        obs = [g.uniform(-3e3, 3e3, no), g.uniform(-3e3, 3e3, no), g.uniform(-4e3, 2e3, no)]
        env = {n: (np.asarray(o, L)[:, None] - np.asarray(p, L)[None, :]) for n, o, p in zip(("dx", "dy", "dz"), obs, dip)}
        env.update(mu0=L(mu0), me=np.asarray(mom[0], L)[None, :], mn=np.asarray(mom[1], L)[None, :], mu=np.asarray(mom[2], L)[None, :])
        t = {f: ev(defs[f]["term"], env) * L(10) ** 9 for f in order}
        sc = sum(np.abs(x).sum(1) for x in t.values()).astype(float)
        for par in (True, False):
            b = c.call("dipole_magnetic b", hm.dipole_magnetic, obs, dip, mom, "b", parallel=par)
            for i, f in enumerate(order):
                if b is not None:
                    c.close(b[i], t[f].sum(1), f"dipole_magnetic b[{f}] of {ns} dipoles", rtol=1e-11, scale=sc)
                s = c.call(f"dipole_magnetic {f}", hm.dipole_magnetic, obs, dip, mom, f, parallel=par)
                if s is not None:
                    c.close(s, t[f].sum(1), f"dipole_magnetic {f} of {ns} dipoles", rtol=1e-11, scale=sc)
        c.validated(no * 4, "random")
    c.require("offsets", 100)
