"""Superposition: collections produced by the editing histories of Superposition.tla, replayed on every forward model."""
import numpy as np

import bulk
import vlib
from vlib import THOROUGH, rng

N = 3


def models(hm):
    """name, fields, call(sources geometry list, strengths, obs, field), geometry(axis, lo, hi), observation points."""
    prism_edges = [(-300.0, -80.0, 120.0, 410.0), (50.0, 130.0, 400.0, 460.0), (-900.0, -500.0, -320.0, -40.0)]
    tess_edges = [(10.0, 14.0, 17.0, 25.0), (-20.0, -13.0, -10.0, -4.0), (6.271e6, 6.301e6, 6.351e6, 6.371e6)]
    outside = (np.array([-700.0, 60.0, 900.0, -100.0]), np.array([20.0, -300.0, 250.0, 800.0]), np.array([30.0, 10.0, -1500.0, -200.0]))
    mixed = (np.array([-700.0, 60.0, 0.0, -300.0]), np.array([20.0, -300.0, 270.0, 130.0]), np.array([30.0, 10.0, -410.0, -320.0]))
    above = (np.array([12.0, 40.0, -170.0]), np.array([-12.0, 30.0, 80.0]), np.array([6.4e6, 6.5e6, 6.9e6]))

    def prism_geo(axis, lo, hi, prism_edges=prism_edges):
        b = [prism_edges[k][i] for k in range(3) for i in (0, 3)]
        b[2 * axis], b[2 * axis + 1] = prism_edges[axis][lo], prism_edges[axis][hi]
        return b

    # blocks of a metre in projected coordinates, and of a thousandth of it around the origin
    def block_geo(axis, lo, hi):
        return prism_geo(axis, lo, hi, [(651213.0, 651234.0, 651235.5, 651236.0), (7208898.5, 7208899.0, 7208900.0, 7209002.0), (-3.0, -1.75, -1.0, 0.5)])

    def speck_geo(axis, lo, hi):
        return prism_geo(axis, lo, hi, [tuple(v * 2.0 ** -14 for v in e) for e in prism_edges])

    block_out = (651233.0 + np.array([-27.0, 1.25, 5.0, -2.0]), 7208900.0 + np.array([2.0, -3.0, 2.5, 8.0]), np.array([3.0, 1.0, -15.0, -5.0]))
    speck_out = tuple(v * 2.0 ** -14 for v in outside)

    def tess_geo(axis, lo, hi):
        b = [tess_edges[k][i] for k in range(3) for i in (0, 3)]
        b[2 * axis], b[2 * axis + 1] = tess_edges[axis][lo], tess_edges[axis][hi]
        return b

    def cell_geo(axis, lo, hi):
        p = [10.0, 60.0, -100.0]
        p[axis] += 55.0 * lo
        return p

    def sph_geo(axis, lo, hi):
        p = [10.0, -15.0, 6.3e6]
        p[axis] += (5.0, 4.0, 2e4)[axis] * lo
        return p

    def cols(geos):
        return tuple(np.array(g) for g in zip(*geos))

    def c_point(geos, s, obs, f, par):
        return hm.point_gravity(obs, cols(geos), np.array(s) * 1e9, f, parallel=par)

    def c_sph(geos, s, obs, f, par):
        return hm.point_gravity(obs, cols(geos), np.array(s) * 1e15, f, coordinate_system="spherical", parallel=par)

    def c_dip(geos, s, obs, f, par):
        s = np.array(s)
        r = hm.dipole_magnetic(obs, cols(geos), (3e3 * s, -1e3 * s, 2e3 * s), f, parallel=par)
        return np.array(r)

    def c_prism(geos, s, obs, f, par):
        return hm.prism_gravity(obs, geos, np.array(s) * 100.0, f, parallel=par)

    def c_pmag(geos, s, obs, f, par):
        s = np.array(s)
        return np.array(hm.prism_magnetic(obs, geos, (3.0 * s, -1.0 * s, 2.0 * s), f, parallel=par))

    def c_pmag0(geos, s, obs, f, par):
        s = np.array(s) * 2.0 ** -30
        return np.array(hm.prism_magnetic(obs, geos, (3.0 * s, -1.0 * s, -2.0 * s), f, parallel=par))

    def c_prism_light(geos, s, obs, f, par):
        return hm.prism_gravity(obs, geos, np.array(s) * 2.0 ** -40, f, parallel=par)

    def c_tess(geos, s, obs, f, par):
        return hm.tesseroid_gravity(obs, geos, np.array(s) * 100.0, f, parallel=par)

    T = ("g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz")
    A = ("potential", "g_e", "g_n", "g_z")
    return [
        ("point", A + T + ("g_zn",), c_point, cell_geo, lambda f: outside, None, True),
        ("point-spherical", ("potential", "g_z"), c_sph, sph_geo, lambda f: above, None, True),
        ("dipole", ("b", "b_e", "b_n", "b_u"), c_dip, cell_geo, lambda f: outside, None, True),
        ("prism", A + T, c_prism, prism_geo, lambda f: mixed if f in A else outside, 1e-9, False),
        ("prism-magnetic", ("b", "b_e", "b_n", "b_u"), c_pmag, prism_geo, lambda f: outside, 1e-9, False),
        ("prism-block", A + T, c_prism, block_geo, lambda f: block_out, 1e-9, False),
        ("prism-speck", A + T, c_prism_light, speck_geo, lambda f: speck_out, 1e-9, False),
        ("prism-magnetic-block", ("b", "b_e", "b_n", "b_u"), c_pmag0, block_geo, lambda f: block_out, 1e-9, False),
        ("tesseroid", ("potential", "g_z"), c_tess, tess_geo, lambda f: above, 2e-3, False),
    ]


def one_model(c, model, cases, salt, plans):
    name, fields, call, geo, obs_for, split_tol, cells_only = model
    g = rng(100 + salt)
    base = {}
    todo = cases if name != "tesseroid" else cases[:: 1 if THOROUGH else 3]
    for n, case in enumerate(todo):
        srcs = case["srcs"]
        if cells_only:
            srcs = [s for s in srcs if s["hi"] - s["lo"] == 1]
            if not srcs:
                continue
        axis, f, par = int(g.integers(3)), fields[n % len(fields)], bool(n % 5 == 0) and n % len(fields) in (0, len(fields) - 1)
        obs = obs_for(f)

        def single(lo, hi):
            key = (axis, lo, hi, f)
            if key not in base:
                base[key] = np.asarray(call([geo(axis, lo, hi)], [1.0], obs, f, False), float)
                for power in (-40, 40):
                    c.close(np.asarray(call([geo(axis, lo, hi)], [2.0 ** power], obs, f, False), float) * 2.0 ** -power, base[key],
                            f"{name} {f}: field of a source 2^{power} times as strong", rtol=1e-12, atol=1e-12 * float(np.abs(base[key]).max()), geometry=geo(axis, lo, hi))
            return base[key]

        geos = [geo(axis, s["lo"], s["hi"]) for s in srcs]
        got = c.call(f"{name} {f}", call, geos, [float(s["s"]) for s in srcs], obs, f, par)
        if got is None:
            continue
        zero = 0 * single(0, N if not cells_only else 1)
        want, scale = zero, np.abs(zero)
        for s in srcs:
            if s["lo"] != s["hi"] and s["s"] != 0:
                want = want + s["s"] * single(s["lo"], s["hi"])
                scale = scale + np.abs(s["s"] * single(s["lo"], s["hi"]))
        c.close(got, want, f"{name} {f}: field of {len(srcs)} sources against the sum of its members after {case['last']}",
                rtol=1e-9, scale=scale, srcs=srcs, axis=axis)
        if split_tol is not None:
            want, sc = zero, np.abs(zero)
            for cell in range(N):
                want = want + case["density"][cell] * single(cell, cell + 1)
                sc = sc + np.abs(single(cell, cell + 1)) * sum(abs(s["s"]) for s in srcs)
            c.close(got, want, f"{name} {f}: field against the density of the cells after {case['last']}", rtol=split_tol, scale=sc,
                    srcs=srcs, density=case["density"], axis=axis)
        c.validated(1, name, case if n == 5 else None)
        c.counts["edit:" + case["last"]] = c.counts.get("edit:" + case["last"], 0) + 1
    # large random collections: every member counts once
    for rep in range(4 if THOROUGH else 1):
        if True:
            n = 7 if name == "tesseroid" else int(g.integers(70, 140))
            geos, s = [], g.normal(0, 5, n)
            s[g.integers(0, n, 3)] = 0
            for _ in range(n):
                x = geo(0, 0, 1)
                jit = g.uniform(0, 1, 3)
                if len(x) == 6:
                    unit = {"prism-block": 0.03125, "prism-magnetic-block": 0.03125, "prism-speck": 2.0 ** -14}.get(name, 1.0)
                    x = [v + unit * (jit[i // 2] * (3.0 if name == "tesseroid" and i < 4 else 20.0) - (20 if i == 5 else 0)) for i, v in enumerate(x)]
                else:
                    x = [v + jit[i] * 20 for i, v in enumerate(x)]
                geos.append(x)
            f = fields[int(g.integers(len(fields)))]
            obs = obs_for("g_ee")
            one = [np.asarray(call([q], [v], obs, f, True), float) for q, v in zip(geos, s)]
            for par in (True, False):
                got = c.call(f"{name} {f}", call, geos, s, obs, f, par)
                if got is not None:
                    c.close(got, sum(one), f"{name} {f}: field of {n} sources", rtol=1e-9, scale=sum(np.abs(o) for o in one))
            c.validated(n, "large")
    # a great many: the field is the sum over the pieces of Bulk.tla
    n = 2003 if name == "tesseroid" and not THOROUGH else bulk.LARGE if cells_only else 20011 if name == "tesseroid" else 70001
    x = np.array(geo(0, 0, 1))
    jit = g.uniform(0, 1, (3, n))
    if len(x) == 6:
        unit = {"prism-block": 0.03125, "prism-magnetic-block": 0.03125, "prism-speck": 2.0 ** -14}.get(name, 1.0)
        rows = np.array([v + unit * (jit[i // 2] * (3.0 if name == "tesseroid" and i < 4 else 20.0) - (20 if i == 5 else 0)) for i, v in enumerate(x)])
    else:
        rows = x[:, None] + 20 * jit
    s = g.normal(0, 5, n)
    for par, f in ((True, fields[0]), (False, fields[-1])):
        bulk.summed(c, f"{name} {f} (parallel={par})", lambda q, f=f, par=par: call(np.stack(q[:-1], axis=1), q[-1], obs_for("g_ee"), f, par),
                    (*rows, s), plans[n])


def check(c):
    import harmonica as hm

    inv = ["TypeOK", "DropNulls"]
    c.tlc("Superposition", constants=dict(N=2, Strengths={-2, 0, 3}, MaxLen=3, MaxSteps=4 if THOROUGH else 3), invariants=inv,
          properties=["KeepsField"])
    sim = c.tlc("Superposition", constants=dict(N=N, Strengths={-2, 0, 1, 3}, MaxLen=6, MaxSteps=9), invariants=inv + ["Emit"],
                properties=["KeepsField"], simulate=1500 if THOROUGH else 60, depth=10)
    g = rng(1)
    order = g.permutation(len(sim.cases))[: 12000 if THOROUGH else 700]
    cases = [sim.cases[i] for i in order]
    plans = bulk.plans(c, [2003, 20011, 70001, bulk.LARGE])
    c.parts(*[lambda sub, i=i: one_model(sub, models(hm)[i], cases, i, plans) for i in range(len(models(hm)))])
    seen = {k[5:] for k in c.counts if k.startswith("edit:")}
    for k in ("point", "point-spherical", "dipole", "prism", "prism-block", "prism-speck", "prism-magnetic", "prism-magnetic-block", "tesseroid"):
        c.require(k, 50)
    c.require("bulk", 18)
    missing = {"add", "null-strength", "null-volume", "remove", "reorder", "negate", "double", "duplicate", "split", "merge"} - seen
    if missing and not c.violations:
        raise vlib.MachineryError(f"edits never exercised: {missing}")
