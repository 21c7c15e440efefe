"""Fit and predictions of equivalent sources: configurations and equations of SourceFit.tla."""
import warnings

import numpy as np

import bulk

from vlib import THOROUGH, ev, rng

L = np.longdouble


def scene(g, k, n):
    """coords (3, m), data, points or None, weights, kwargs."""
    m = {"line": 13, "grid": 12, "one": 1, "two": 2}[k["shape"]]
    integer = k["dtype"].startswith("int")
    sph = k["kind"] == "sph"
    if sph:
        base = np.array([float(g.choice([0, 178, -75])), float(g.choice([0, 40, -60])), 6.4e6])
        x = np.array([base[0] + np.arange(m) % 4 * 2 + g.uniform(-0.4, 0.4, m), base[1] + np.arange(m) // 4 * 2 + g.uniform(-0.4, 0.4, m), base[2] + g.uniform(-1e4, 3e4, m)])
        sp = 2.2e5
    else:
        sp = 10.0 if k["work"] == "float32" or n % 2 else 2000.0
        off = np.zeros(3) if k["work"] == "float32" or k["dtype"] == "float32" else g.choice([0, 3e4, -5e5], 3)
        x = np.array([np.arange(m) % 4 + g.uniform(-0.3, 0.3, m), np.arange(m) // 4 + g.uniform(-0.3, 0.3, m), g.uniform(-0.2, 0.2, m)]) * sp + off[:, None]
    data = g.normal(size=m) * 30
    if integer:
        x, data = np.round(x), np.round(data)
    x, data = x.astype(k["dtype"]), data.astype(k["dtype"])
    kw = dict(damping={"none": None, "tiny": 1e-6, "one": 0.7, "large": 50.0}[k["damping"]], parallel=k["parallel"])
    if not sph:
        kw["dtype"] = k["work"]
    points = None
    if k["points"].startswith("custom"):
        mp = {"custom few": max(1, m // 3), "custom many": m + 4, "custom integer": m}[k["points"]]
        c0 = np.asarray(x, dtype=float).mean(axis=1)
        points = np.array([c0[a] + (g.uniform(-1.5, 1.5, mp) if a < 2 else -g.uniform(1, 2, mp)) * (2.0 if sph and a < 2 else sp) for a in range(3)])
        if k["points"] == "custom integer":
            points = np.round(points).astype(np.int64)
        kw["points"] = tuple(points) if n % 2 else [list(p) for p in points]
    if sph:
        kw["relative_depth"] = sp if n % 2 else int(sp)
    else:
        kw["depth"] = "default" if k["shape"] in ("line", "grid") and n % 5 == 4 and k["damping"] != "none" else sp * 1.3
        if k["points"] == "blocks":
            kw["block_size"] = 2.3 * sp
    w = {"none": None, "ones": np.ones(m), "spread": 10.0 ** g.uniform(-2, 2, m), "minute": 1e-8 * 10.0 ** g.uniform(-2, 2, m), "zeros": np.where(np.arange(m) % 4 == 1, 0.0, g.uniform(1, 2, m)), "integer": np.arange(m) % 3 + 1}[k["weights"]]
    return x, data, kw, w, sp


def green(terms, sph, x, pts):
    with np.errstate(all="ignore"):
        return ev(terms["spherical" if sph else "cartesian"],
                  dict(x=x[0][:, None].astype(L), y=x[1][:, None].astype(L), z=x[2][:, None].astype(L), x0=pts[0][None].astype(L), y0=pts[1][None].astype(L), z0=pts[2][None].astype(L)))


def replay(c, hm, terms, k, g, n):
    sph = k["kind"] == "sph"
    cls = {"cartesian": hm.EquivalentSources, "gb": hm.EquivalentSourcesGB, "sph": hm.EquivalentSourcesSph}[k["kind"]]
    x, data, kw, w, sp = scene(g, k, n)
    if k["shape"] == "one" and (k["points"] == "blocks"):
        return
    shape = {"line": (-1,), "grid": (3, 4), "one": (1,), "two": (2,)}[k["shape"]]
    coords = tuple(q.reshape(shape) for q in x)
    if k["extra"]:
        coords = (*coords, np.full(coords[0].shape, 99))
    what = f"{k}"
    eq = cls(**kw)
    if c.call(f"fit {what}", eq.fit, coords, data.reshape(shape), None if w is None else w.reshape(shape)) is None:
        return
    f32 = k["work"] == "float32"
    work = np.float32 if f32 else np.float64
    pts = [np.asarray(q) for q in eq.points_]
    coef = np.asarray(eq.coefs_)
    c.true(coef.dtype.kind == "f" and bool(np.isfinite(coef).all()), f"coefficients {coef} {what}")
    if not all(np.isfinite(q).all() for q in pts):  # the default depth of a single source is not defined
        return
    if sph and k["dtype"] == "float32":  # distances of single precision angles: only a few digits
        got = c.call(f"predict {what}", eq.predict, coords)
        if got is not None:
            c.true(np.asarray(got).dtype.kind == "f" and np.asarray(got).shape == coords[0].shape, f"prediction of type {np.asarray(got).dtype} {what}")
        return
    # single precision rounds coordinates before the distances are taken
    xw = [q.astype(work) for q in x]
    tol = 3e-5 if f32 else 1e-11 if not sph else 2e-9
    # ---- predictions anywhere
    pshape = [(7,), (2, 3), (), (1,), (1, 1), (3, 1)][n % 6]
    if sph:
        p = [np.asarray(x[0], dtype=float).mean() + g.uniform(-8, 8, pshape), np.clip(np.asarray(x[1], dtype=float).mean() + g.uniform(-8, 8, pshape), -90, 90), 6.45e6 + g.uniform(0, 1e5, pshape)]
        if n % 3 == 0:  # other turns
            p[0] = p[0] + 360 * (-1) ** n
    else:
        p = [np.asarray(x[a], dtype=float).mean() + (g.uniform(-3, 3, pshape) if a < 2 else g.uniform(0.5, 3, pshape)) * sp for a in range(3)]
    if k["dtype"].startswith("int"):
        p = [np.round(q).astype(k["dtype"]) for q in p]
    if n % 4 == 2:  # a constant height
        p[2] = p[2].ravel()[0]
    full = np.broadcast_arrays(*p)
    flat = [np.ravel(q).astype(work) for q in full]
    G = green(terms, sph, flat, pts)
    got = c.call(f"predict {what}", eq.predict, tuple(p) if n % 2 else (*p, 5.0))
    if got is not None:
        got = np.asarray(got)
        c.true(got.dtype.kind == "f", f"prediction of type {got.dtype} {what}")
        c.close(got, (G * coef).sum(axis=1).astype(float).reshape(full[0].shape), f"prediction at {pshape} {what}", rtol=0, atol=1e-300 + 0 * tol + float((np.abs(G) * np.abs(coef)).sum(axis=1).max()) * tol)
        c.validated(1, "predict")
    # ---- jacobian
    A = green(terms, sph, xw, pts)
    jac = c.call(f"jacobian {what}", eq.jacobian, tuple(np.ascontiguousarray(q) for q in xw), eq.points_)
    if jac is not None:
        c.close(jac, A.astype(float), f"jacobian {what}", rtol=tol if not f32 else 2e-4)
    # ---- normal equations
    A = A.astype(float)
    d = data.astype(float)
    ww = np.ones(len(d)) if w is None else np.asarray(w, dtype=float)
    res = d - A @ coef
    kd = kw["damping"] or 0.0
    s = A.std(axis=0) if len(d) > 1 else np.zeros(A.shape[1])
    s = np.where(s < 1e-14 * A.max(axis=0), 1.0, s)
    grad = sum(ev(terms["gradient"], dict(w=ww[i], A=A[i], res=res[i])) for i in range(len(d)))
    damp = ev(terms["damp"], dict(k=L(kd), s=s.astype(L), c=coef.astype(L)))
    size = (ww[:, None] * np.abs(A) * (np.abs(d) + np.abs(A) @ np.abs(coef))[:, None]).sum(axis=0)
    slack = float((kd * s * np.abs(coef)).max() * A.max())  # the spread of a column is known to the precision of its mean
    # a small damping of a nearly singular problem is solved to the digits of single precision that are left
    loss = 0.0
    if f32 and kd:
        B = np.sqrt(ww)[:, None] * A / s
        M = B @ B.T if B.shape[0] < B.shape[1] else B.T @ B
        loss = 1e-6 * np.linalg.cond(M + kd * np.eye(len(M)))
    c.close((grad - damp).astype(float), np.zeros(len(coef)), f"normal equations {what}", rtol=0, atol=float(size.max()) * (2e-4 + loss if f32 else 1e-9 if not sph else 1e-8) + slack * (1e-5 if f32 else 1e-12), coef=coef)
    # least squares without damping and with fewer rows than unknowns: the smallest solution in units of the columns
    rows = int((ww > 0).sum())
    if kd == 0 and not f32:
        B = np.sqrt(ww)[:, None] * A / s
        if np.linalg.cond(B) < 1e5:
            z = np.linalg.pinv(B) @ (np.sqrt(ww) * d)
            c.close(coef * s, z, f"coefficients {what}", rtol=1e-7, scale=float(np.abs(z).max()))
            c.validated(1, "coefficients")
            if rows <= len(coef):
                c.close(np.ravel(eq.predict(coords))[ww > 0], d[ww > 0], f"prediction at the data without damping {what}", rtol=0, atol=1e-7 * float(np.abs(d).max() + 1e-300))
                c.validated(1, "exact")
    elif kd > 0.1 and not f32:
        B = np.sqrt(ww)[:, None] * A / s
        z = np.linalg.solve(B.T @ B + kd * np.eye(len(s)), B.T @ (np.sqrt(ww) * d))
        c.close(coef * s, z, f"damped coefficients {what}", rtol=1e-8, scale=float(np.abs(z).max()))
        c.validated(1, "coefficients")
    # ---- score: coefficient of determination of the predictions
    if len(d) > 1 and n % 3 == 0:
        sc = c.call(f"score {what}", eq.score, coords, data.reshape(shape), None if w is None else w.reshape(shape))
        if sc is not None:
            pr = np.ravel(eq.predict(coords)).astype(float)
            den = (ww * (d - (ww * d).sum() / ww.sum()) ** 2).sum()
            if den > 1e-6:
                c.close(sc, 1 - (ww * (d - pr) ** 2).sum() / den, f"score {what}", rtol=1e-6 if not f32 else 1e-3, scale=1.0)
                c.validated(1, "score")
    # ---- grid and profile
    if n % 4 == 1 and not k["dtype"].startswith("int"):
        ax = np.linspace(float(x[0].min()), float(x[0].max()) + (sp if not sph else 1), 4)
        ay = np.linspace(float(x[1].min()), float(x[1].max()) + (sp if not sph else 1), 3)
        mx, my = np.meshgrid(ax, ay)
        mz = np.full(mx.shape, float(x[2].max()) + sp) + (mx - ax[0]) * 0.1
        gr = c.call(f"grid {what}", eq.grid, (mx, my, mz) if n % 8 == 1 else (ax, ay, mz))
        if gr is not None:
            dims = ("spherical_latitude", "longitude") if sph else ("northing", "easting")
            c.equal(tuple(gr.scalars.dims), dims, f"dims of the grid {what}")
            c.close(gr.scalars.values, np.asarray(eq.predict((mx, my, mz))), f"grid {what}", rtol=1e-9 if not f32 else 1e-4)
            c.close(gr.coords[dims[0]].values, ay, "coordinates of the grid")
            c.close(gr.coords[dims[1]].values, ax, "coordinates of the grid")
            c.close(gr.coords["radius" if sph else "upward"].values, mz, "heights of the grid")
            # the prediction at one node, from the terms
            one = (green(terms, sph, [np.array([mx[1, 2]], dtype=work), np.array([my[1, 2]], dtype=work), np.array([mz[1, 2]], dtype=work)], pts) * coef)
            c.close(float(gr.scalars.values[1, 2]), float(one.sum()), f"node of the grid {what}", rtol=0, atol=float(np.abs(one).sum()) * tol)
            c.validated(1, "grid")
        if not sph:
            z0 = float(x[2].max()) + sp
            t = c.call(f"profile {what}", eq.profile, (ax[0], ay[0]), (ax[-1], ay[-1]), z0, 5)
            if t is not None:
                c.close(t["scalars"].to_numpy(), np.asarray(eq.predict((t["easting"].to_numpy(), t["northing"].to_numpy(), t["upward"].to_numpy()))), f"profile {what}", rtol=1e-9 if not f32 else 1e-4)
                c.close(t["easting"].to_numpy(), np.linspace(ax[0], ax[-1], 5), f"profile {what}")
                c.close(t["northing"].to_numpy(), np.linspace(ay[0], ay[-1], 5), f"profile {what}")
                c.close(t["upward"].to_numpy(), np.full(5, z0), f"profile {what}")
                c.validated(1, "profile")
    c.validated(1, k["kind"], dict(case=k))


def crowd(plans):
    """Many data, many predictions."""
    def part(c):
        import harmonica as hm

        g = rng(980)
        for k, cls in enumerate((hm.EquivalentSources, hm.EquivalentSourcesGB, hm.EquivalentSourcesSph)):
            sph = k == 2
            scale = np.array([3.0, 3.0, 1e4]) if sph else np.array([30.0, 30.0, 5.0])
            at = np.array([40.0, -30.0, 6.5e6]) if sph else np.array([500.0, -900.0, 20.0])
            custom = tuple(a - (3e5 if sph and j == 2 else 20.0 if j == 2 else 0) + s * g.normal(size=9) for j, (a, s) in enumerate(zip(at, scale)))
            extra = {} if not k == 1 else dict(window_size=100.0, random_state=0)
            # data: every one of them counts in the normal equations
            n = 4001 if k == 1 else 40009
            x = tuple(a + s * g.normal(size=n) for a, s in zip(at, scale))
            d, w = g.normal(size=n), g.uniform(0.5, 2, n)
            eq = cls(points=custom, damping=None, **extra)
            if c.call(f"{cls.__name__}: fit of {n} data", eq.fit, x, d, w) is None:
                continue
            jac = eq.jacobian(x, eq.points_)
            bulk.mapped(c, f"{cls.__name__}: jacobian", lambda p, eq=eq: np.asarray(eq.jacobian(p, eq.points_)).T, x, plans[n], rtol=1e-9 if not sph else 1e-7)
            jac = np.asarray(jac, dtype=float)
            s = np.abs(jac).max(axis=0)
            z = np.linalg.lstsq(jac / s * np.sqrt(w)[:, None], d * np.sqrt(w), rcond=None)[0]
            if k != 1:
                c.close((jac / s * w[:, None]).T @ (d - np.asarray(eq.predict(x))), np.zeros(9), f"{cls.__name__}: normal equations of {n} data", atol=1e-8 * n)
                c.close(jac @ eq.coefs_, jac / s @ z, f"{cls.__name__}: predictions of {n} data", rtol=1e-5, scale=1e-3)
            else:
                c.close(np.asarray(eq.predict(x)), jac @ eq.coefs_, f"{cls.__name__}: predictions of {n} data", rtol=1e-9, scale=float((np.abs(jac) @ np.abs(eq.coefs_)).max()))
            for par in (True, False):
                eq.parallel = par
                x = tuple(a + s * g.normal(size=bulk.LARGE) for a, s in zip(at, scale))
                bulk.mapped(c, f"{cls.__name__}: predictions (parallel={par})", eq.predict, x, plans[bulk.LARGE], rtol=1e-10, scale=float(np.abs(jac).max() * np.abs(eq.coefs_).sum()))
            east, north = at[0] + scale[0] * np.linspace(-1, 1, 503), at[1] + scale[1] * np.linspace(-2, 2, 401)
            mesh = np.meshgrid(east, north)
            up = at[2] + 0 * mesh[0]
            grid = c.call(f"{cls.__name__}: large grid", eq.grid, (east, north, up))
            if grid is not None:
                want = bulk.joined(eq.predict, (mesh[0].ravel(), mesh[1].ravel(), up.ravel()), plans[503 * 401])
                c.close(grid.scalars.values.ravel(), want, f"{cls.__name__}: grid of 401 by 503", rtol=1e-10, scale=float(np.abs(jac).max() * np.abs(eq.coefs_).sum()))
                c.validated(1, "bulk")
    return part


def check(c):
    import harmonica as hm

    warnings.simplefilter("ignore")
    v = "{<<1, 0, 1, 2>>, <<0, 1, 2, -1>>, <<1, 1, 1, 1>>, <<2, -1, 3, 0>>, <<1, -2, 1, 3>>}"
    r = c.tlc("SourceFit", constants=dict(Values=v, MaxChanges=3 if THOROUGH else 2), invariants=["Minimum", "Sharp", "Emit"])
    terms = [k for k in r.cases if k.get("kind") == "def"][0]
    cases = [k["case"] for k in r.cases if "case" in k]
    many = c.tlc("SourceFit", constants=dict(Values="{}", MaxChanges=8), invariants=["Emit"], simulate=300 if THOROUGH else 25, depth=9)
    more = [k["case"] for k in many.cases if "case" in k]
    g = rng(941)
    cases += [more[i] for i in g.permutation(len(more))[: 4000 if THOROUGH else 300]]
    by = {k: [q for q in cases if q["kind"] == k] for k in ("cartesian", "gb", "sph")}

    def part(ks, salt):
        def run(s):
            gg = rng(salt)
            for n, k in enumerate(ks):
                replay(s, hm, terms, k, gg, n)

        return run

    parts = [crowd(bulk.plans(c, [4001, 40009, bulk.LARGE, 503 * 401]))]
    for n, (name, ks) in enumerate(by.items()):
        ks = [ks[i] for i in g.permutation(len(ks))]
        for j in range(2):
            for par in (True, False):
                parts.append(part([k for i, k in enumerate(ks) if i % 2 == j and k["parallel"] is par], 942 + n * 4 + j * 2 + par))
    c.parts(*parts)
    for k, n in (("cartesian", 100), ("gb", 100), ("sph", 50), ("predict", 300), ("coefficients", 60), ("exact", 30), ("score", 40), ("grid", 20), ("profile", 15), ("bulk", 12)):
        c.require(k, n)
