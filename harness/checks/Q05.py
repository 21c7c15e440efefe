"""Grids and profiles of estimators: the calls of GridCalls.tla."""
import warnings

import numpy as np
import xarray as xr

from vlib import THOROUGH, MachineryError, rng


def projection(name, inverse=False):
    f = {"scaled": lambda e, n: (2 * e, 3 * n), "swapped": lambda e, n: (n + 100, e), "mirrored": lambda e, n: (-e, n - 7)}[name]
    b = {"scaled": lambda e, n: (e / 2, n / 3), "swapped": lambda e, n: (n, e - 100), "mirrored": lambda e, n: (-e, n + 7)}[name]

    def fn(e, n, inverse=False):
        return b(e, n) if inverse else f(e, n)
    return fn


def estimators(hm, kind, salt):
    g = rng(salt)
    if kind == "sph":
        at = (g.uniform(-30, 30, 15), g.uniform(-40, 40, 15), 1000 + 5 * g.normal(size=15))
        return [hm.EquivalentSourcesSph(damping=0.1, relative_depth=100, parallel=p) for p in (True, False)], at, g.normal(size=15)
    at = (g.uniform(-40, 140, 15), g.uniform(-40, 40, 15), g.normal(size=15))
    kw = dict(damping=0.1, depth=30)
    if kind == "boosted":
        return [hm.EquivalentSourcesGB(window_size=60.0, random_state=2, parallel=p, **kw) for p in (True, False)], at, g.normal(size=15)
    return [hm.EquivalentSources(parallel=p, **kw) for p in (True, False)], at, g.normal(size=15)


EXTRA = {"upward": 10.0, "shape": (3, 3), "region": (0, 1, 0, 1), "spacing": 1.0, "adjust": "region", "pixel_register": True, "extra_coords": 5.0}


def dimension_names(sph):
    return ("spherical_latitude", "longitude") if sph else ("northing", "easting")


def one_grid(c, est, q, ans, n, what):
    sph = q["kind"] == "sph"
    e, m = np.array(q["e"], dtype=float), np.array(q["n"], dtype=float)
    up = np.array([[40.0 + 10 * (i + 1) + j + 1 for j in range(len(e))] for i in range(len(m))])
    if sph:
        up = up + 1000
    if n % 3 == 1:
        e, m, up = (z.astype(int) for z in (e, m, up))
    co = (e, m, up) if q["form"] == "1d" else (*np.meshgrid(e, m), up)
    if n % 5 == 4 and q["form"] == "2d":
        co = tuple(np.asfortranarray(z) for z in co)
    keep = [z.copy() for z in co]
    kw = {k: EXTRA[k] for k in q["extra"]}
    if q["proj"] != "none":
        kw["projection"] = projection(q["proj"])
    dims = dimension_names(sph)
    if q["dims"]:
        dims = ("alpha", "beta")
        kw["dims"] = list(dims) if n % 2 else dims
    names = "scalars"
    if q["names"]:
        names = "gz"
        kw["data_names"] = ("gz", ["gz"], ("gz",))[n % 3]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            grid = est.grid(co, **kw) if n % 2 else est.grid(coordinates=co, **kw)
            outcome = "grid"
        except Exception as err:  # noqa: BLE001
            outcome = type(err).__name__
            if ans["outcome"] == "grid" or ans["outcome"] not in [k.__name__ for k in type(err).__mro__]:
                c.violation(f"{what}: {outcome}: {err}, specified {ans['outcome']}")
                return
            outcome = ans["outcome"]
    if not c.equal(outcome, ans["outcome"], f"{what}: outcome"):
        return
    c.true(all(np.array_equal(a, b) for a, b in zip(co, keep)), f"{what}: the coordinates of the caller changed")
    told = [x for x in w if issubclass(x.category, FutureWarning)]
    if ans["outcome"] == "grid":
        c.equal(bool(told), ans["warns"], f"{what}: a FutureWarning about arguments without effect")
    if outcome != "grid":
        c.validated(1, "refused")
        return
    c.true(isinstance(grid, xr.Dataset) and list(grid.data_vars) == [names], f"{what}: the grid holds {list(grid.data_vars)}")
    da = grid[names]
    if not c.equal(tuple(da.dims), dims, f"{what}: dimensions"):
        return
    c.close(grid[dims[0]].values, m, f"{what}: {dims[0]}", rtol=0)
    c.close(grid[dims[1]].values, e, f"{what}: {dims[1]}", rtol=0)
    others = [k for k in grid.coords if k not in dims]
    c.equal(len(others), 1, f"{what}: further coordinates {others}")
    if others:
        c.equal(others[0], "radius" if sph else "upward", f"{what}: name of the vertical coordinate")
        c.close(grid[others[0]].values, up, f"{what}: vertical coordinate", rtol=0)
    pts = tuple(np.array([[float(nd["at"][k]) for nd in row] for row in ans["nodes"]]) for k in (0, 1))
    lift = np.array([[float(nd["up"]) + (1000 if sph else 0) for nd in row] for row in ans["nodes"]])
    want = est.predict((*pts, lift))
    c.close(da.values, want, f"{what}: values", rtol=1e-10, scale=np.abs(want).max())
    text = repr(est)
    c.true(text in str(grid.attrs.get("metadata")), f"{what}: metadata {grid.attrs.get('metadata')!r} does not tell the estimator {text}")
    c.validated(1, "grid", dict(call={k: v for k, v in q.items()}) if n < 2 else None)


def one_profile(c, est, q, ans, n, what):
    sph = q["kind"] == "sph"
    kw = {}
    if q["proj"] != "none":
        kw["projection"] = projection(q["proj"])
    dims = dimension_names(sph)
    if q["dims"]:
        dims = ("alpha", "beta")
        kw["dims"] = dims
    names = "scalars"
    if q["names"]:
        names = "gz"
        kw["data_names"] = "gz"
    if q["extra"]:
        kw["extra_coords"] = 33.0
    p1, p2 = (tuple(float(z) for z in p) if n % 2 else tuple(p) for p in q["ends"])
    args = (p1, p2) if sph else (p1, p2, float(q["up"]) if n % 3 else q["up"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            table = est.profile(*args, size=q["size"], **kw) if n % 2 else est.profile(*args, q["size"], **kw)
            outcome = "table"
        except Exception as err:  # noqa: BLE001
            outcome = ans["outcome"] if ans["outcome"] in [k.__name__ for k in type(err).__mro__] else f"{type(err).__name__}: {err}"
    if not c.equal(outcome, ans["outcome"], f"{what}: outcome"):
        return
    if outcome != "table":
        c.validated(1, "refused")
        return
    c.equal(sorted(map(str, table.columns)), sorted([*dims, "distance", "upward", names]), f"{what}: columns")
    if not set(dims) <= set(table.columns) or names not in table.columns:
        return
    at = [np.array([float(r["at"][k]) for r in ans["nodes"]]) for k in (0, 1)]
    shown = [np.array([float(r["shown"][k]) for r in ans["nodes"]]) for k in (0, 1)]
    c.close(table[dims[1]].values, shown[0], f"{what}: {dims[1]}", rtol=1e-12, atol=1e-10)
    c.close(table[dims[0]].values, shown[1], f"{what}: {dims[0]}", rtol=1e-12, atol=1e-10)
    c.close(table["distance"].values, np.sqrt([float(r["d2"]) for r in ans["nodes"]]), f"{what}: distances", rtol=1e-12, atol=1e-10)
    c.close(table["upward"].values, np.full(q["size"], float(q["up"])), f"{what}: upward", rtol=0)
    want = est.predict((*at, np.full(q["size"], float(q["up"]))))
    c.close(table[names].values, want, f"{what}: values", rtol=1e-10, scale=np.abs(want).max())
    c.validated(1, "profile")


def run(c, hm, kind, cases, salt):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ests, at, data = estimators(hm, kind, salt)
        blank = estimators(hm, kind, salt)[0]
        for e in ests:
            e.fit(at, data)
    state = [(e.get_params(deep=False), e.coefs_.copy(), [p.copy() for p in e.points_]) for e in ests]
    for n, case in enumerate(cases):
        q, ans = case["call"], case["answer"]
        which = (n // 7) % 2
        est = (ests if q["fitted"] else blank)[which]
        what = f"{type(est).__name__} {q}"
        if q["m"] == "grid":
            one_grid(c, est, q, ans, n, what)
        elif q["m"] == "profile":
            one_profile(c, est, q, ans, n, what)
        else:
            c.raises(what, NotImplementedError, est.scatter)
            c.raises(what, NotImplementedError, est.scatter, region=(0, 1, 0, 1), size=4)
            c.validated(1, "refused")
        if len(c.violations) > 5:
            return
    for e, (params, coefs, points) in zip(ests, state):
        c.true(np.array_equal(e.coefs_, coefs) and all(np.array_equal(a, b) for a, b in zip(e.points_, points)), f"{kind}: the estimator changed")
        c.equal({k: repr(v) for k, v in e.get_params(deep=False).items()}, {k: repr(v) for k, v in params.items()}, f"{kind}: parameters after all calls")
    for e in blank:
        c.true(not hasattr(e, "coefs_"), f"{kind}: an estimator that was not fitted has coefficients")


def check(c):
    import harmonica as hm

    base = dict(Easts="{<<0, 3, 7, 12>>, <<20, 8, -6>>, <<5>>}" if THOROUGH else "{<<0, 3, 7, 12>>, <<20, 8, -6>>}", Norths="{<<-4, 9>>, <<11, 5, 0, -9, -10>>}",
                Extras="{{}, {\"upward\"}, {\"shape\"}, {\"region\"}, {\"spacing\"}, {\"adjust\"}, {\"pixel_register\", \"adjust\"}, {\"adjust\", \"shape\"}}")
    jobs, inv = [], ["OwnPlace", "Distinct", "EvenSteps", "NeverSilent", "Emit"]
    for i, kind in enumerate(("plain", "boosted", "sph")):
        r = c.tlc("GridCalls", constants=dict(base, Kinds=f'{{"{kind}"}}'), invariants=inv)
        cases = r.cases
        if len(cases) < 1000:
            raise MachineryError(f"few calls: {len(cases)}")
        g = rng(70 + i)
        # refusals are many and alike
        cases = [q for q in cases if q["answer"]["outcome"] in ("grid", "table") or q["call"]["m"] == "scatter" or g.random() < (1 if THOROUGH else 0.3)]
        jobs.append(lambda s, kind=kind, cases=cases, i=i: run(s, hm, kind, cases, 800 + i))
    c.parts(*jobs)
    c.require("grid", 500)
    c.require("profile", 300)
    c.require("refused", 500)
