"""Observation independence: every way of handing over points that Batching.tla derives, against single-point calls."""
import copy
import warnings

import numpy as np

import bulk
from checks import igrfcommon
from vlib import THOROUGH, rng

NP = 16
KINDS = ["array", "list", "int", "bcast", "series", "mixed", "readonly", "float32", "xarray", "short"]


# numbers of the pools fit in all of these
TYPES = {"int": int, "float32": np.float32, "short": np.int32}


def view(case_coord, shape, pool, dtype=float):
    """The numpy array the specification describes: buffer of cells seen through offset and strides."""
    buf = np.array(pool[: max(case_coord["cells"], 1)], dtype=dtype)
    st = tuple(s * buf.itemsize for s in case_coord["strides"])
    return buf, np.lib.stride_tricks.as_strided(buf[case_coord["off"]:], shape=tuple(shape), strides=st)


def hand_over(case, pools):
    """(buffers, coordinates) for the case's container kind, or None when the kind does not apply."""
    shape, kind = case["shape"], case["kind"]
    bufs, out = [], []
    for k in range(3):
        b, v = view(case["coords"][k], shape, pools[k], TYPES.get(kind, float) if kind != "mixed" else (int, float, float)[k])
        bufs.append(b)
        if kind == "list":
            v = v.tolist()
        elif kind == "bcast":
            v = v[tuple(slice(0, 1) if case["coords"][k]["strides"][a] == 0 else slice(None) for a in range(len(shape)))]
            while v.ndim and v.shape[0] == 1:
                v = v[0]
        elif kind == "series":
            if len(shape) != 1:
                return None
            import pandas as pd

            v = pd.Series(v, index=np.arange(len(v))[::-1] + 3)
        elif kind == "xarray":
            import xarray as xr

            dims = [f"dim_{a}" for a in range(len(shape))]
            v = xr.DataArray(v, dims=dims, coords={d: np.arange(n)[::-1] * 2.0 for d, n in zip(dims, shape)}, name=f"coordinate_{k}")
        elif kind == "readonly":
            v.flags.writeable = False
        out.append(v)
    if kind == "bcast" and np.broadcast_shapes(*[np.shape(v) for v in out]) != tuple(shape):
        return None
    return bufs, tuple(out)


def functions(hm):
    g = rng(2)
    pts = (np.array([3.0, -40.0, 22.0, 8.0]), np.array([-5.0, 6.0, 31.0, -30.0]), np.array([-100.0, -81.0, -60.0, -77.0]))
    m = np.array([3e9, -1e9, 2e9, 5e8])
    mom = (np.array([1e3, 2e3, -3e3, 1e2]), np.array([0.0, 1e3, 5e2, -2e3]), np.array([7e2, -1e3, 1e3, 4e2]))
    prisms = np.array([[-30.0, -10.0, -20.0, 5.0, -150.0, -120.0], [5.0, 40.0, -10.0, 30.0, -200.0, -105.0], [0.0, 0.0, 1.0, 4.0, -300.0, -200.0]])
    rho = np.array([2670.0, -400.0, 1e3])
    mag = (np.array([1.0, 2.0, 3.0]), np.array([-1.0, 0.5, 3.0]), np.array([0.3, 1.5, 3.0]))
    xy = [np.round(g.permutation(60)[:NP] - 30.0) for _ in range(2)]
    cart = [xy[0], xy[1], np.round(g.permutation(90)[:NP] - 50.0)]
    sph = [np.round(g.permutation(300)[:NP] - 100.0), np.round(g.permutation(160)[:NP] - 80.0), np.round(6.38e6 + 100 * g.permutation(900)[:NP])]
    spts = (np.array([3.0, 150.0, -70.0]), np.array([10.0, -60.0, 80.0]), np.array([6.2e6, 6.3e6, 6.1e6]))
    tess = np.array([[3.0, 9.0, 10.0, 14.0, 6.3e6, 6.36e6], [150.0, 152.0, -60.0, -57.0, 6.35e6, 6.371e6], [20.0, 20.0, 0.0, 1.0, 6.3e6, 6.37e6]])
    layer = hm.prism_layer((np.arange(0.0, 30.0, 10.0), np.arange(0.0, 20.0, 10.0)), np.array([[-90.0, -80, -85], [-200, -60, np.nan]]), -100.0,
                           {"density": np.array([[1e3, 2e3, -3e2], [4e2, np.nan, 9e2]])})
    tlayer = hm.tesseroid_layer((np.arange(0.0, 6.0, 2.0), np.arange(10.0, 16.0, 3.0)),
                                6.371e6 + np.array([[-90.0, -80, -85], [-200, -60, np.nan]]), 6.369e6,
                                {"density": np.array([[1e3, 2e3, -3e2], [4e2, np.nan, 9e2]])})
    ells = [hm.Ellipsoid(30.0, 20.0, 10.0, 20, -30, 50, (5.0, 3.0, -40.0), density=1e3, susceptibility=0.3, remanent_mag=np.array([1.0, 2, 3])),
            hm.Ellipsoid(7.0, 7.0, 7.0, center=(-5.0, -3.0, -20.0), density=-3e2, susceptibility=0.1)]
    eqs = hm.EquivalentSources(damping=1e-3, depth=50, parallel=False).fit((pts[0], pts[1], pts[2] + 101), m / 1e9)
    eqsph = hm.EquivalentSourcesSph(damping=1e-3, relative_depth=5e3, parallel=False).fit((spts[0], spts[1], spts[2] + 3e5), m[:3] / 1e9)
    eqgb = hm.EquivalentSourcesGB(damping=1e-3, depth=50, window_size=40, random_state=0, parallel=False).fit((pts[0], pts[1], pts[2] + 101), m / 1e9)
    undo = igrfcommon.install(hm, igrfcommon.coefficients())
    igrf = hm.IGRF14("2022-05-07")
    igrf.coefficients  # noqa: B018
    undo()
    geod = [sph[0], sph[1], np.round(g.permutation(900)[:NP] * 10.0)]
    A = np.asarray
    F = {}
    for f in ("potential", "g_z", "g_ee", "g_nz") + (("g_e", "g_n", "g_nn", "g_zz", "g_en", "g_ez") if THOROUGH else ()):
        F[f"point {f}"] = (cart, [pts, m], lambda o, s, par, f=f: hm.point_gravity(o, s[0], s[1], f, parallel=par), True)
        F[f"prism {f}"] = (cart, [prisms, rho], lambda o, s, par, f=f: hm.prism_gravity(o, s[0], s[1], f, parallel=par), True)
        if f in ("g_z", "g_nz"):
            F[f"prism layer {f}"] = (cart, [layer], lambda o, s, par, f=f: s[0].prism_layer.gravity(o, f, parallel=par), True)
    for f in ("potential", "g_z"):
        F[f"point-spherical {f}"] = (sph, [spts, m[:3] * 1e6],
                                     lambda o, s, par, f=f: hm.point_gravity(o, s[0], s[1], f, coordinate_system="spherical", parallel=par), True)
    F["tesseroid g_z"] = (sph, [tess, rho], lambda o, s, par: hm.tesseroid_gravity(o, s[0], s[1], "g_z", parallel=par), "slow")
    if THOROUGH:
        F["tesseroid potential"] = (sph, [tess, rho], lambda o, s, par: hm.tesseroid_gravity(o, s[0], s[1], "potential", parallel=par), "slow")
        F["tesseroid layer"] = (sph, [tlayer], lambda o, s, par: s[0].tesseroid_layer.gravity(o, "g_z", parallel=par), "slow")
    for f in ("b", "b_n"):
        F[f"dipole {f}"] = (cart, [pts, mom], lambda o, s, par, f=f: A(hm.dipole_magnetic(o, s[0], s[1], f, parallel=par)), True)
        F[f"prism-magnetic {f}"] = (cart, [prisms, mag], lambda o, s, par, f=f: A(hm.prism_magnetic(o, s[0], s[1], f, parallel=par)), True)
    F["ellipsoid gravity"] = (cart, [ells], lambda o, s, par: A(hm.ellipsoid_gravity(o, s[0])), False)
    F["ellipsoid magnetic"] = (cart, [ells], lambda o, s, par: A(hm.ellipsoid_magnetic(o, s[0], (1e4, 2e4, -4e4))), False)

    def predictor(eq):
        def fn(o, s, par):
            eq.parallel = par
            return eq.predict(o)
        return fn

    F["EquivalentSources"] = (cart, [], predictor(eqs), True)
    F["EquivalentSourcesGB"] = (cart, [], predictor(eqgb), False)
    F["EquivalentSourcesSph"] = (sph, [], predictor(eqsph), True)
    F["IGRF"] = (geod, [], lambda o, s, par: A(igrf.predict(o)), False)
    return F


def one(c, name, spec, cases, salt, plans):
    pools, sources, fn, par = spec
    g = rng(200 + salt)
    cache = {}
    frozen = copy.deepcopy(sources)

    def single(key):
        if key not in cache:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = np.asarray(fn(tuple(float(pools[k][key[k]]) for k in range(3)), sources, False), float)
            cache[key] = r
        return cache[key]

    ncomp = None
    order = g.permutation(len(cases))
    budget = (3000 if THOROUGH else 60) if par == "slow" else (6000 if THOROUGH else 350)
    done = 0
    for n in order:
        if done >= budget:
            break
        case = cases[n]
        if case["kind"] in ("readonly", "mixed", "int") and (par == "slow" or salt % 3) and not THOROUGH:
            continue  # a different numba signature: recompiles, so only some of the models in the quick tier
        h = hand_over(case, pools)
        if h is None:
            continue
        done += 1
        bufs, obs = h
        keep = [b.copy() for b in bufs]
        p = bool(par) and case["kind"] in ("array", "list", "bcast") and n % 2 == 0
        got = c.call(f"{name} ({case['kind']}, shape {case['shape']})", fn, obs, sources, p)
        if got is None:
            continue
        vals = [single(tuple(t)) for t in case["table"]]
        if ncomp is None:
            ncomp = vals[0].shape
            c.true(ncomp in ((), (3,)), f"{name}: a single point gives a result of shape {ncomp}", case=case)
        want = np.array(vals).T.reshape(ncomp + tuple(case["shape"]))
        c.close(got, want, f"{name} ({case['kind']} of shape {case['shape']}, parallel={p}) against single-point calls",
                rtol=1e-5 if case["kind"] == "float32" and pools[2].max() > 1e6 or case["kind"] == "float32" and name == "IGRF" else 1e-10,  # sines and cosines of single precision
                scale=float(np.nanmax(np.abs(want))) if want.size else 0, case=case)
        c.true(np.asarray(got).dtype.kind == "f", f"{name} ({case['kind']}): result of type {np.asarray(got).dtype}", case=case)
        for k in range(3):
            c.true(np.array_equal(keep[k], bufs[k]), f"{name} ({case['kind']}): the caller's coordinate {k} was modified", case=case)
        c.validated(1, name, case if done == 3 else None)
        c.counts["kind:" + case["kind"]] = c.counts.get("kind:" + case["kind"], 0) + 1
    n = 9001 if par == "slow" and not THOROUGH else 40009 if not par or par == "slow" else bulk.LARGE
    many = tuple(g.uniform(p.min(), p.max(), n) for p in pools)
    for p in (True, False) if par else (False,):
        bulk.mapped(c, f"{name} (parallel={p})", lambda o, p=p: fn(o, sources, p), many, plans[n], rtol=1e-10)
    for a, b in zip(frozen, sources):
        same = a.identical(b) if hasattr(a, "identical") else all(
            np.array_equal(x, y) if not hasattr(x, "a") else str(x) == str(y) for x, y in zip(a, b))
        c.true(same, f"{name}: the caller's sources were modified")


def sources_layouts(c, hm, cases):
    """Sources in every layout: the fields do not depend on how the source arrays are stored."""
    g = rng(3)
    obs = (np.array([0.0, 35.0, -70.0]), np.array([5.0, 20.0, 60.0]), np.array([40.0, 0.0, 15.0]))
    pools = [np.round(g.permutation(60)[:NP] - 30.0), np.round(g.permutation(60)[:NP] - 30.0), np.round(g.permutation(60)[:NP] - 90.0)]
    k = 0
    for n in g.permutation(len(cases))[: 4000 if THOROUGH else 500]:
        case = dict(cases[n], kind="array")
        if case["shape"] == []:
            continue
        _, v = hand_over(case, pools)
        size = len(case["table"])
        s = np.round(g.normal(0, 100, size), 1)
        base = tuple(np.array([pools[a][t[a]] for t in case["table"]]) for a in range(3))
        # the strengths travel in the layout of the first coordinate as well
        buf = np.zeros(case["coords"][0]["cells"])
        strides0 = case["coords"][0]["strides"]
        sv = s.reshape(case["shape"])
        if 0 not in strides0:
            sv = np.lib.stride_tricks.as_strided(buf[case["coords"][0]["off"]:], shape=tuple(case["shape"]), strides=tuple(8 * q for q in strides0))
            sv[...] = s.reshape(case["shape"])
        for f in ("g_z", "b"):
            if f == "b":
                got = c.call("dipole_magnetic", hm.dipole_magnetic, obs, v, (sv, 2 * sv, -sv), "b", parallel=False)
                want = np.array(hm.dipole_magnetic(obs, base, (s, 2 * s, -s), "b", parallel=False))
            else:
                got = c.call("point_gravity", hm.point_gravity, obs, v, sv * 1e9, f, parallel=False)
                want = hm.point_gravity(obs, base, s * 1e9, f, parallel=False)
            if got is not None:
                c.close(got, want, f"{f} of sources of shape {case['shape']} stored with strides {[q['strides'] for q in case['coords']]}",
                        rtol=1e-10, scale=float(np.abs(want).max()), case=case)
        # prisms: rows of boundaries in the same layouts
        e, nn, u = base
        pr = np.stack([e, e + 7, nn, nn + 3, u - 20, u], axis=1)
        want = hm.prism_gravity(obs, pr, s, "g_z", parallel=False)
        wantb = np.array(hm.prism_magnetic(obs, pr, (s, -s, 2 * s), "b", parallel=False))
        form = k % 4
        k += 1
        if form == 0:
            p2, s2 = np.asfortranarray(pr), s
        elif form == 1:
            big = np.full((2 * size, 12), 1e9)
            big[::2, ::2] = pr
            p2, s2 = big[::2, ::2], np.repeat(s, 2)[::2]
        elif form == 2:
            p2, s2 = [tuple(r) for r in pr.tolist()], s.tolist()
        else:
            p2, s2 = pr.astype(int), s
        got = c.call("prism_gravity", hm.prism_gravity, obs, p2, s2, "g_z", parallel=False)
        if got is not None:
            c.close(got, want, f"prism_gravity of prisms stored in form {form}", rtol=1e-10, scale=float(np.abs(want).max()), case=case)
        import pandas as pd
        import xarray as xr

        # tables and labelled arrays, whose labels mean nothing
        labels = np.roll(np.arange(size), 1)
        tab = pd.DataFrame(dict(e=e, n=nn, u=u, s=s), index=labels)
        arr = [xr.DataArray(q, dims="source", coords={"source": labels[::-1]}) for q in (e, nn, u, s)]
        single = [np.asarray(q, dtype=np.float32) for q in (e, nn, u)]
        for what, (p3, s3) in {"series": ((tab.e, tab.n, tab.u), tab.s), "labelled arrays": (tuple(arr[:3]), arr[3]), "lists": ((e.tolist(), nn.tolist(), u.tolist()), s.tolist()),
                               "single precision": (single, s), "small integers": ([q.astype(np.int16) for q in (e, nn, u)], s)}.items():
            if what[0] == "s" and what != "series" and k % 8:
                continue
            w3 = (lambda v: np.asarray(v) * 1e9) if what == "lists" else lambda v: v * 1e9
            got = c.call(f"point_gravity of {what}", hm.point_gravity, obs, tuple(p3), w3(s3).tolist() if what == "lists" else w3(s3), "g_z", parallel=False)
            ref = hm.point_gravity(obs, base, s * 1e9, "g_z", parallel=False)
            if got is not None:
                c.close(got, ref, f"point_gravity of sources given as {what}", rtol=1e-10, scale=float(np.abs(ref).max()), case=case)
            mom = (s3, s3[::-1] if what == "lists" else s3 * -2, s3)
            ref = np.array(hm.dipole_magnetic(obs, base, (s, s[::-1] if what == "lists" else -2 * s, s), "b", parallel=False))
            got = c.call(f"dipole_magnetic of {what}", hm.dipole_magnetic, obs, tuple(p3), mom, "b", parallel=False)
            if got is not None:
                c.close(got, ref, f"dipole_magnetic of dipoles given as {what}", rtol=1e-10, scale=float(np.abs(ref).max()), case=case)
        if k % 2:
            table = pd.DataFrame(pr, index=labels, columns=list("wesnbt"))
            got = c.call("prism_gravity of a table", hm.prism_gravity, obs, table, tab.s, "g_z", parallel=False)
            if got is not None:
                c.close(got, want, "prism_gravity of prisms given as a table", rtol=1e-10, scale=float(np.abs(want).max()), case=case)
            got = c.call("prism_magnetic of a table", hm.prism_magnetic, obs, table, (tab.s, -tab.s, 2 * tab.s), "b", parallel=False)
            if got is not None:
                c.close(got, wantb, "prism_magnetic of prisms given as a table", rtol=1e-10, scale=float(np.abs(wantb).max()), case=case)
            c.validated(1, "labelled")
        s3 = np.asarray(s2, float)
        got = c.call("prism_magnetic", hm.prism_magnetic, obs, p2, (s3, -s3, 2 * s3) if form != 2 else tuple(q.tolist() for q in (s3, -s3, 2 * s3)),
                     "b", parallel=False)
        if got is not None:
            c.close(got, wantb, f"prism_magnetic of prisms stored in form {form}", rtol=1e-10, scale=float(np.abs(wantb).max()), case=case)
        c.validated(1, "source layouts")


def check(c):
    import harmonica as hm

    shapes = "{<<>>,<<1>>,<<5>>,<<2,3>>,<<1,3>>,<<2,1,2>>}"
    inv = ["PointWise", "InBounds", "Distinct", "Emit"]
    kinds = {f'"{k}"' for k in KINDS}
    ex = c.tlc("Batching", constants=dict(Shapes="{<<>>,<<1>>,<<4>>,<<2,3>>,<<2,1,2>>}", Kinds=kinds, Free=1), invariants=inv)
    si = c.tlc("Batching", constants=dict(Shapes=shapes, Kinds=kinds, Free=3), invariants=inv, simulate=6000 if THOROUGH else 400, depth=40)
    cases = ex.cases + si.cases
    flat = [k for k in si.cases if k["kind"] == "array"]
    # the prism layer dataset and the equivalent sources are built here, in the parent, serially
    fns = functions(hm)
    plans = bulk.plans(c, [9001, 40009, bulk.LARGE])
    c.parts(*[lambda sub, n=n, k=k: one(sub, k, fns[k], cases, n, plans) for n, k in enumerate(fns)],
            lambda sub: sources_layouts(sub, hm, flat))
    for k in fns:
        c.require(k, 40)
    for k in KINDS:
        c.require("kind:" + k, 5)
    c.require("source layouts", 100)
    c.require("labelled", 50)
    c.require("bulk", 2 * len(fns) - 6)
