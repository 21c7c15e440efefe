"""Euler deconvolution: every observation history of Euler.tla replayed, plus the defining equations of least squares."""
import numpy as np

import vlib
from vlib import THOROUGH, rng

CONST = dict(Points="{<<0,0,0>>, <<3,0,1>>, <<0,2,0>>, <<-1,-2,2>>, <<2,3,-1>>, <<-3,1,0>>, <<1,-1,4>>}",
             Grads="{<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,-2,1>>, <<-1,1,2>>, <<0,0,0>>}",
             Sources="{<<1,-1,-4>>, <<0,2,-3>>, <<-2,0,1>>}", Bases="{0, 7, -3}", Indices="{1, 2, 3}")
INV = ["Euler", "Exact", "Translated", "Rank", "Emit"]


def problems(c, n=None, seed=3):
    """Exact problems with a unique solution: all of three points (none is unique) and random larger ones."""
    c.tlc("Euler", constants=dict(CONST, Count=2, Grads="{<<1,0,0>>, <<0,1,0>>, <<1,-2,1>>}"), invariants=INV)
    cases = []
    for count in (4, 5, 6, 7):
        # the simulator emits the successors of every step: take a bounded sample of them
        r = c.tlc("Euler", constants=dict(CONST, Count=count), invariants=INV, simulate=(200 if THOROUGH else 15), depth=count + 1, seed=vlib.SEED * 7 + seed + count)
        ok = [k for k in r.cases if k["unique"]]
        g = rng(count + 100 * seed)
        cases += [ok[i] for i in g.permutation(len(ok))[: (n or 150)]]
    return cases


def arrays(case, unit, fieldunit, shift):
    x = np.array([o["x"] for o in case["obs"]], float) * unit + shift
    grad = np.array([o["g"] for o in case["obs"]], float) * fieldunit / unit
    f = np.array([o["f"] for o in case["obs"]], float) * fieldunit
    src = np.array(case["src"], float) * unit + shift
    return x, f, grad, src, case["base"] * fieldunit


UNITS = [(1.0, 1.0, (0, 0, 0)), (1000.0, 50.0, (2e3, -5e3, 100)), (0.01, 1e-3, (0, 0, 0)), (500.0, 2e4, (5e3, 7e3, -500)),
         (1000.0, 1e-8, (1e3, 4e3, 10)), (2000.0, 1e12, (0, 0, 0)), (30.0, 1e-15, (5, 5, 5))]


def replay(c, hm, cases, salt):
    g = rng(salt)
    for pos, k in enumerate(cases):
        unit, fu, shift = UNITS[pos % len(UNITS)]
        shift = np.array(shift, float)
        x, f, grad, src, base = arrays(k, unit, fu, shift)
        n = len(f)
        scale = float(np.abs(x - src).max() + np.abs(x).max() + 1)
        order = g.permutation(n)
        shapes = [(n,)] + ([(2, n // 2), (n // 2, 2)] if n % 2 == 0 else [(n, 1), (1, n)])
        for s, shape in enumerate(shapes):
            idx = order if s % 2 else np.arange(n)
            coords = tuple(x[idx, i].reshape(shape) for i in range(3))
            data = tuple(d[idx].reshape(shape) for d in (f, grad[:, 0], grad[:, 1], grad[:, 2]))
            if s == 1:
                coords, data = tuple(np.asfortranarray(a) for a in coords), tuple(np.asfortranarray(a) for a in data)
            keep = [a.copy() for a in coords + data]
            e = hm.EulerDeconvolution(structural_index=k["eta"])
            out = c.call("EulerDeconvolution.fit", e.fit, coords, data)
            if out is None:
                continue
            c.true(out is e, "fit returns the estimator")
            # how well the arithmetic can determine the source: condition of the scaled normal matrix
            jac = np.column_stack([grad, np.full(n, float(k["eta"]))])
            jn = jac / np.maximum(np.linalg.norm(jac, axis=0), 1e-300)
            cond = np.linalg.cond(jn) ** 2
            tol = 1e-12 * max(1, cond) + 1e-11
            c.close(e.location_, src, f"location of the source (eta {k['eta']}, shape {shape}, unit {unit})", rtol=tol, scale=scale * 10, case=k)
            c.close(e.base_level_, base, "base level", rtol=tol, scale=abs(base) + float(np.abs(f).max()) + scale * float(np.abs(grad).max()), case=k)
            c.equal(np.shape(e.location_), (3,), "shape of the location", case=k)
            c.equal(np.shape(e.base_level_), (), "shape of the base level", case=k)
            c.equal(np.shape(e.covariance_), (4, 4), "shape of the covariance", case=k)
            for a, b in zip(keep, coords + data):
                c.true(np.array_equal(a, b), "fit modified its arguments", case=k)
        c.validated(1, f"eta{k['eta']}", k)


def squares(c, hm, cases, salt):
    """Inconsistent data: the estimate satisfies the normal equations and the covariance inverts the normal matrix."""
    g = rng(salt)
    for pos, k in enumerate(cases):
        if len(k["obs"]) < 6:
            continue
        unit, fu, shift = UNITS[pos % len(UNITS)]
        x, f, grad, src, base = arrays(k, unit, fu, np.array(shift, float))
        n = len(f)
        f = f + fu * g.normal(size=n)
        grad = grad + 0.3 * fu / unit * g.normal(size=grad.shape)
        e = hm.EulerDeconvolution(structural_index=k["eta"])
        if c.call("EulerDeconvolution.fit", e.fit, tuple(x.T), (f, *grad.T)) is None:
            continue
        L = np.longdouble
        xl, gl, fl = x.astype(L), grad.astype(L), f.astype(L)
        jac = np.column_stack([gl, np.full(n, L(k["eta"]))])
        rhs = (xl * gl).sum(1) + k["eta"] * fl
        p = np.array([*e.location_, e.base_level_], L)
        res = rhs - jac @ p
        norms = np.sqrt((jac ** 2).sum(0))
        dot = (jac / norms).T @ res
        c.close(dot.astype(float), np.zeros(4), "residuals are orthogonal to the columns of the jacobian", atol=1e-7 * float(np.abs(rhs).max()), case=k)
        # covariance: chi^2 (J^T J)^-1, in normalized units
        chi = (res ** 2).sum() / (n - 4)
        h = (jac / norms).T @ (jac / norms)
        cov = np.asarray(e.covariance_, L) * norms[:, None] * norms[None, :]
        c.close((cov @ h / chi).astype(float), np.eye(4), "the covariance is that of least squares", atol=1e-5 * max(1.0, np.linalg.cond(h.astype(float)) * 1e-6), case=k)
        # equivariance: translation of the frame, scaling of the field
        t = np.array([120.0, -40.0, 33.0]) * unit
        e2 = hm.EulerDeconvolution(structural_index=k["eta"]).fit(tuple((x + t).T), (5 * f + 3 * fu, *(5 * grad).T))
        big = np.abs(x).max() + np.abs(t).max() + np.abs(e.location_).max()
        cond = np.linalg.cond(h.astype(float))
        c.close(e2.location_, e.location_ + t, "translated frame moves the location", rtol=1e-11 * max(10.0, cond), scale=float(big) * 10, case=k)
        c.close(e2.base_level_, 5 * e.base_level_ + 3 * fu, "scaled and shifted field moves the base level", rtol=1e-10 * max(10.0, cond),
                scale=float(np.abs(f).max() * 5 + 3 * fu + big * np.abs(grad).max() * 10), case=k)
        # refit: nothing left of the first data
        e.fit(tuple((x + t).T), (5 * f + 3 * fu, *(5 * grad).T))
        c.true(np.array_equal(e.location_, e2.location_) and np.array_equal(e.covariance_, e2.covariance_) and e.base_level_ == e2.base_level_,
               "a refit gives the results of a fresh estimator", case=k)
        c.validated(1, "noisy")


def crowds(c, hm):
    """Noisy data by the thousand: least squares of all of them."""
    g = rng(44)
    for n in (5003, 70001, 300007) if not THOROUGH else (1009, 5003, 10007, 33331, 70001, 300007, 1000003):
        src, base, eta = np.array([3e2, -1e2, -8e2]), 7.0, 2
        x = np.stack([g.uniform(-2e3, 2e3, n), g.uniform(-2e3, 2e3, n), g.uniform(0, 300, n)])
        d = x - src[:, None]
        r = np.sqrt((d ** 2).sum(0))
        f = 1e8 / r ** 2
        grad = -2 * f * d / r ** 2
        # the field of the last ones is that of another place
        f, grad = f + base + g.normal(size=n) * np.linspace(0, 3, n), grad + g.normal(size=(3, n)) * 0.01
        e = hm.EulerDeconvolution(structural_index=eta)
        if c.call(f"fit of {n} data", e.fit, tuple(x), (f, *grad)) is None:
            continue
        jac = np.vstack([grad, np.full(n, float(eta))]).T
        rhs = (x * grad).sum(0) + eta * f
        norms = np.sqrt((jac ** 2).sum(0))
        p, _, _, sv = np.linalg.lstsq(jac / norms, rhs, rcond=None)
        tol = 1e-13 * (sv[0] / sv[-1]) ** 2 + 1e-10
        got = np.array([*e.location_, e.base_level_])
        c.close(got * norms, p, f"least-squares estimate from {n} data", rtol=tol, scale=float(np.abs(p).max()))
        res = rhs - jac / norms @ p
        h = (jac / norms).T @ (jac / norms)
        cov = np.asarray(e.covariance_) * norms[:, None] * norms[None, :]
        c.close(cov @ h / ((res ** 2).sum() / (n - 4)), np.eye(4), f"covariance from {n} data", atol=1e-6 + 1e-12 * np.linalg.cond(h))
        c.validated(1, "crowd")


def real_fields(c, hm):
    """Point mass (index 2 for g_z, 1 for the potential) and dipole (3) computed by the library itself, over observation heights."""
    g = rng(33)
    for rep in range(12 if THOROUGH else 4):
        n = 60
        src = np.array([g.uniform(-500, 500), g.uniform(-500, 500), -g.uniform(300, 900)])
        obs = tuple(np.array([g.uniform(-2e3, 2e3, n), g.uniform(-2e3, 2e3, n), g.uniform(0, 300, n)]))
        base = float(g.uniform(-5, 5))
        m = [1e12]
        for fld, ders, sgn, unit, eta in (("g_z", ("g_ze", "g_zn", "g_zz"), (1, 1, -1), 1e-4, 2), ("potential", ("g_e", "g_n", "g_z"), (1, 1, -1), 1e-5, 1)):
            f = hm.point_gravity(obs, tuple([s] for s in src), m, fld) + base
            d = [s * unit * hm.point_gravity(obs, tuple([v] for v in src), m, k) for k, s in zip(ders, sgn)]
            e = hm.EulerDeconvolution(structural_index=eta).fit(obs, (f, *d))
            c.close(e.location_, src, f"source of {fld}", rtol=1e-6, scale=1e3)
            c.close(e.base_level_, base, f"base level of {fld}", rtol=1e-6, scale=float(np.abs(f).max()))
            c.validated(1, "field")


def check(c):
    import harmonica as hm

    cases = problems(c, 4000 if THOROUGH else 120)
    for bad in (0, 0.0):
        c.raises("structural index 0", ValueError, hm.EulerDeconvolution, bad)
        c.raises("structural index 0", ValueError, hm.EulerInversion, structural_index=bad)
    a, b = cases[::2], cases[1::2]
    c.parts(lambda s: replay(s, hm, a, 1), lambda s: replay(s, hm, b, 2), lambda s: squares(s, hm, cases, 3), lambda s: real_fields(s, hm), lambda s: crowds(s, hm))
    for n in (1, 2, 3):
        c.require(f"eta{n}", 20)
    c.require("noisy", 40)
    c.require("field", 8)
    c.require("crowd", 3)
