"""Euler inversion: exact problems of Euler.tla, and the control flow of EulerLoop.tla against a dense reference of the iterations."""
import warnings

import numpy as np

import vlib
from vlib import THOROUGH, rng

from . import U01


# ------------------------------------------------- dense reference of the mathematical model
def iterate(x, data, eta, weights, n, balance=0.1):
    """Parameters, predicted data, covariance, merit and misfit after 0..n Gauss-Newton steps (each solved as a constrained least squares)."""
    f, ge, gn, gu = data
    m = f.size
    obs = np.concatenate(data)
    pred = 0.9 * obs
    jac = np.column_stack([ge, gn, gu, np.full(m, float(eta))])
    rhs = x[0] * ge + x[1] * gn + x[2] * gu + eta * f
    s = np.maximum(np.linalg.norm(jac, axis=0), 1e-300)
    p = np.linalg.lstsq(jac / s, rhs, rcond=None)[0] / s
    w = np.repeat(np.asarray(weights, float), m)

    def equation(p, d):
        q = d.reshape(4, m)
        return (x[0] - p[0]) * q[1] + (x[1] - p[1]) * q[2] + (x[2] - p[2]) * q[3] + eta * (q[0] - p[3])

    def merits(p, d):
        e, r = equation(p, d), obs - d
        return [(np.linalg.norm(r * ww), np.linalg.norm(r * ww) + balance * np.linalg.norm(e)) for ww in (w, np.sqrt(w))]

    out = [dict(p=p.copy(), merits=merits(p, pred))]
    for _ in range(n):
        q = pred.reshape(4, m)
        e, r = equation(p, pred), obs - pred
        a = -np.column_stack([q[1], q[2], q[3], np.full(m, float(eta))])
        b = np.hstack([np.diag(v) for v in (np.full(m, float(eta)), x[0] - p[0], x[1] - p[1], x[2] - p[2])])
        # minimize (r - dd)^T W (r - dd) subject to e + a dp + b dd = 0
        wi = 1 / w
        s2 = (b * wi) @ b.T                       # diagonal
        c = np.linalg.cholesky(s2)
        aw, bw = np.linalg.solve(c, a), np.linalg.solve(c, e + b @ r)
        sc = np.linalg.norm(aw, axis=0)
        qm, rm = np.linalg.qr(aw / sc)
        dp = -np.linalg.solve(rm, qm.T @ bw) / sc
        lam = np.linalg.solve(s2, e + b @ r + a @ dp)
        dd = r - wi * (b.T @ lam)
        p, pred = p + dp, pred + dd
        cof = np.linalg.inv(rm.T @ rm) / np.outer(sc, sc)
        res = obs - pred
        out.append(dict(p=p.copy(), merits=merits(p, pred), cov=cof * np.sum(res ** 2) / (res.size - 4), cond=np.linalg.cond(rm)))
    return out


def exact(c, hm, cases):
    for pos, k in enumerate(cases):
        if len(k["obs"]) < 5:
            continue
        unit, fu, shift = U01.UNITS[pos % len(U01.UNITS)]
        x, f, grad, src, base = U01.arrays(k, unit, fu, np.array(shift, float))
        if np.any(np.abs(x - src).sum(1) == 0):
            continue
        jac = np.column_stack([grad, np.full(len(f), float(k["eta"]))])
        cond = np.linalg.cond(jac / np.maximum(np.linalg.norm(jac, axis=0), 1e-300)) ** 2
        scale = float(np.abs(x - src).max() + np.abs(x).max() + 1)
        shape = (2, len(f) // 2) if len(f) % 2 == 0 else (len(f),)
        coords, data = tuple(a.reshape(shape) for a in x.T), tuple(a.reshape(shape) for a in (f, *grad.T))
        keep = [a.copy() for a in coords + data]
        e = hm.EulerInversion(structural_index=k["eta"])
        if c.call("EulerInversion.fit", e.fit, coords, data) is None:
            continue
        c.close(e.location_, src, f"location of an exact source (eta {k['eta']})", rtol=1e-10 * max(10, cond), scale=scale * 10, case=k)
        c.close(e.base_level_, base, "base level of an exact source", rtol=1e-10 * max(10, cond),
                scale=abs(base) + float(np.abs(f).max()) + scale * float(np.abs(grad).max()), case=k)
        c.equal(e.structural_index_, k["eta"], "structural index", case=k)
        for a, b in zip(keep, coords + data):
            c.true(np.array_equal(a, b), "fit modified its arguments", case=k)
        c.validated(1, "exact", k)


def noisy(g, n, eta, kind):
    """A source with noise: field, gradient and positions in moderate units."""
    src = np.array([g.uniform(-3, 3), g.uniform(-3, 3), -g.uniform(4, 8)])
    x = np.array([g.uniform(-10, 10, n), g.uniform(-10, 10, n), g.uniform(0, 2, n)])
    d = x - src[:, None]
    r = np.sqrt((d ** 2).sum(0))
    amp = 100.0 * 5.0 ** eta
    f, grad = amp / r ** eta, -eta * amp * d / r ** (eta + 2)
    base = float(g.uniform(-20, 20))
    noise = {"low": 1e-3, "high": 0.05}[kind]
    f = f + base + noise * np.abs(f).max() * g.normal(size=n)
    grad = grad + noise * np.abs(grad).max() * g.normal(size=grad.shape)
    return x, (f, *grad), src, base


def outcome(cases):
    return {(tuple(tuple(s) for s in k["small"]), tuple(k["misfit"]), k["limit"]): k for k in cases}


def control(c, hm, table, maxiter, salt):
    g = rng(salt)
    for rep in range(120 if THOROUGH else 16):
        n, eta = int(g.integers(8, 40)), int(g.integers(1, 4))
        x, data, src, base = noisy(g, n, eta, ("low", "high")[rep % 2])
        weights = (1, 0.1, 0.1, 0.025) if rep % 3 else (1.0, 0.5, 0.25, 0.7)
        ref = iterate(x, data, eta, weights, maxiter)
        # the field in other units: locations are the same, base levels scale
        s = 2.0 ** (0, 0, -35, 40)[rep % 4]
        frame = np.array([1, 1, 1, s])
        scaled = tuple(q * s for q in data)
        changes = [[abs((ref[i]["merits"][v][1] - ref[i + 1]["merits"][v][1]) / ref[i]["merits"][v][1]) for i in range(maxiter)] for v in (0, 1)]
        tols = [0.0, 1e9] + sorted({float(10 ** g.uniform(-6, 0.5)) for _ in range(3)})
        for tol in tols:
            small = [tuple(bool(v < tol) for v in ch) for ch in changes]
            near = any(abs(v - tol) < 1e-6 * tol for ch in changes for v in ch)
            for limit in range(1, maxiter + 1):
                if near or len({s[:limit] for s in small}) > 1:
                    continue
                want = table[((small[0],), (1,), limit)]
                e = hm.EulerInversion(structural_index=eta, tol=tol, max_iterations=limit)
                kw = {} if weights == (1, 0.1, 0.1, 0.025) else {"weights": weights}
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    try:
                        e.fit(tuple(x), scaled, **kw)
                    except Exception as exc:  # noqa: BLE001
                        c.violation(f"EulerInversion.fit raised {exc!r}", tol=tol, limit=limit)
                        continue
                msgs = [str(i.message) for i in w if "maximum number of iterations" in str(i.message)]
                c.equal(len(msgs), want["warned"], f"warnings with tol={tol:.3g}, max_iterations={limit} (changes {changes[0]})")
                at = ref[want["done"][0]]
                tag = f"after {want['done'][0]} iterations (tol={tol:.3g}, max_iterations={limit}, eta={eta}, weights={weights}, units {s:.2g})"
                c.close(e.location_, at["p"][:3], f"location {tag}", rtol=1e-6, scale=10.0)
                c.close(e.base_level_ / s, at["p"][3], f"base level {tag}", rtol=1e-6, scale=float(np.abs(data[0]).max()))
                d = np.sqrt(np.diag(at["cov"]))
                c.close(e.covariance_ / np.outer(d * frame, d * frame), at["cov"] / np.outer(d, d), f"covariance {tag}", rtol=1e-5, scale=1.0)
                c.validated(1, f"stop{want['done'][0]}", dict(tol=tol, limit=limit, changes=changes[0], done=want["done"]))
                c.validated(1, "warned" if want["warned"] else "silent")


def selection(c, hm, table, maxiter, salt):
    g = rng(salt)
    for rep in range(60 if THOROUGH else 12):
        n, eta = int(g.integers(20, 60)), 1 + rep % 3
        x, data, src, base = noisy(g, n, eta, "low")
        cands = [int(v) for v in g.permutation([1, 2, 3, 4])[: int(g.integers(1, 4))]]
        if rep % 4 == 0 and len(cands) > 1:
            cands[-1] = cands[0]
        cands = cands[:3]
        s = 2.0 ** (0, -35, 0, 40)[rep % 4]
        frame = np.array([1, 1, 1, s])
        scaled = tuple(q * s for q in data)
        limit, tol = 1 + rep % 3, (0.0, 1e9, 0.0, 0.0)[rep % 4]
        small = (tol > 0,) * maxiter
        weights = (1, 0.1, 0.1, 0.025) if rep % 3 else ((1.0, 0.5, 0.25, 0.7), (1, 5.0, 3.0, 2.0))[rep // 3 % 2]
        kw = {} if rep % 3 else {"weights": weights}
        fits = [(q, small, iterate(x, data, q, weights, maxiter)) for q in cands]
        done = [table[((small,), (1,), limit)]["done"][0]] * len(cands)
        ranks = []
        for v in (0, 1):
            mis = [r[d]["merits"][v][0] for (_, _, r), d in zip(fits, done)]
            order = sorted(set(np.round(mis, 9)))
            ranks.append(tuple(order.index(np.round(m, 9)) + 1 for m in mis))
        key = (tuple(f[1] for f in fits), ranks[0], limit)
        if ranks[0] != ranks[1]:
            continue
        want = table[key]
        e = hm.EulerInversion(structural_index=tuple(cands) if rep % 2 else list(cands), max_iterations=limit, tol=tol)
        for again in (False, True):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                e.fit(tuple(x), scaled, **kw)
            msgs = [1 for i in w if "maximum number of iterations" in str(i.message)]
            b = want["best"] - 1
            c.equal(e.structural_index_, cands[b], f"index selected among {cands} (misfit ranks {ranks[0]}, true {eta})")
            c.equal(len(msgs), want["warned"], f"warnings for candidates {cands}")
            at = fits[b][2][done[b]]
            c.close(e.location_, at["p"][:3], f"location for the index selected among {cands}", rtol=1e-6, scale=10.0)
            c.close(e.base_level_ / s, at["p"][3], "base level for the selected index", rtol=1e-6, scale=float(np.abs(data[0]).max()))
            sd = np.sqrt(np.diag(at["cov"]))
            c.close(e.covariance_ / np.outer(sd * frame, sd * frame), at["cov"] / np.outer(sd, sd), "covariance for the selected index", rtol=1e-5, scale=1.0)
            c.equal(e.structural_index, tuple(cands) if rep % 2 else list(cands), "the parameter of the estimator is left as given")
            if not again:
                # other data in between leave nothing behind
                y, other, _, _ = noisy(g, n, 1 + (eta % 3), "low")
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    e.fit(tuple(y), other)
        if ranks[0].count(1) == 1 and eta in cands:
            c.equal(cands[ranks[0].index(1)], eta, "the true index has the smallest misfit")
        c.validated(1, f"select{len(cands)}", dict(candidates=cands, ranks=ranks[0], best=want["best"]))


def parameters(c, hm):
    """tol and euler_misfit_balance given to the estimator reach every candidate: a huge tolerance stops all of them at once."""
    g = rng(5)
    x, data, src, base = noisy(g, 40, 2, "high")
    for eta in ((1, 2, 3), 2):
        for kw, n in ((dict(tol=1e12), 0), (dict(tol=0.0, max_iterations=2), 3 if eta != 2 else 1)):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                hm.EulerInversion(structural_index=eta, **kw).fit(tuple(x), data)
            c.equal(sum("maximum number of iterations" in str(i.message) for i in w), n, f"warnings with {kw} and indices {eta}")
    # a balance that makes the Euler misfit dominate or vanish changes when the iterations stop
    for eta in (2, [2]):
        for balance in (0.0, 1e3):
            ref = iterate(x, data, 2, (1, 0.1, 0.1, 0.025), 6, balance)
            ch = [[abs((ref[i]["merits"][v][1] - ref[i + 1]["merits"][v][1]) / ref[i]["merits"][v][1]) for i in range(6)] for v in (0, 1)]
            for tol in (0.5, 0.1, 0.01, 1e-3, 1e-4):
                stop = [next((i + 1 for i, v in enumerate(r) if v < tol), None) for r in ch]
                if stop[0] is None or stop[0] != stop[1]:
                    continue
                e = hm.EulerInversion(structural_index=eta, tol=tol, euler_misfit_balance=balance)
                e.fit(tuple(x), data)
                c.close(e.location_, ref[stop[0]]["p"][:3], f"location with balance {balance}, tol {tol}", rtol=1e-7, scale=10.0)
                c.validated(1, "balance")


def check(c):
    import harmonica as hm

    cases = U01.problems(c, 2000 if THOROUGH else 80, seed=9)
    maxiter = 4
    inv = dict(invariants=["Bounded", "Earliest", "Warnings", "Smallest", "Emit"], properties=["Ends"])
    every = "[1..4 -> BOOLEAN]"
    one = c.tlc("EulerLoop", constants=dict(MaxIter=maxiter, MaxCandidates=1, Misfits="{1, 2}", Patterns=every), **inv)
    some = "{<<FALSE, FALSE, FALSE>>, <<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE>>}" if not THOROUGH else "[1..3 -> BOOLEAN]"
    many = c.tlc("EulerLoop", constants=dict(MaxIter=3, MaxCandidates=3, Misfits="{1, 2, 3}", Patterns=some), **inv)
    t1, lut3 = outcome(one.cases), outcome(many.cases)
    c.parts(lambda s: exact(s, hm, cases), lambda s: control(s, hm, t1, maxiter, 1), lambda s: control(s, hm, t1, maxiter, 2), lambda s: control(s, hm, t1, maxiter, 3),
            lambda s: selection(s, hm, lut3, 3, 4), lambda s: selection(s, hm, lut3, 3, 5), lambda s: parameters(s, hm))
    for k in ("exact", "warned", "silent", "stop1", "stop2"):
        c.require(k, 10)
    c.require("select2", 4)
    c.require("balance", 2)
