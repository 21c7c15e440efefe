"""Gradient boosting: windows and bookkeeping of Boosting.tla; recorded fits are validated by BoostTrace.tla."""
import warnings

import numpy as np

from vlib import MachineryError, THOROUGH, rng


def layouts(g, n):
    out = []
    while len(out) < n:
        w = int(g.integers(2, 14))
        ee, en = (int(w + g.integers(0, int(1.9 * w) + 1)) for _ in range(2))
        if len(out) % 6 == 0:
            ee = en = w
        m, s = int(g.integers(4, 26)), int(g.integers(2, 20))
        data = [[int(g.integers(0, ee + 1)), int(g.integers(0, en + 1))] for _ in range(m)] + [[0, 0], [ee, en]]
        lo, hi = [(0, 1), (0.3, 0.9), (-0.2, 1.1)][len(out) % 3]
        srcs = [[int(np.floor(ee * g.uniform(lo, hi))), int(np.floor(en * g.uniform(lo, hi)))] for _ in range(s)]
        if len(out) % 4 == 3:
            srcs = data
        out.append(dict(data=data, srcs=srcs, w=w, below=len(out) % 4 == 3))
    return out


def tla(lays):
    def seq(q):
        return "<<" + ", ".join(f"<<{a}, {b}>>" for a, b in q) + ">>"

    return "{" + ", ".join(f"[data |-> {seq(k['data'])}, srcs |-> {seq(k['srcs'])}, w |-> {k['w']}]" for k in lays) + "}"


def ids(s):
    return "{" + ", ".join(str(int(q)) for q in sorted(s)) + "}"


def module(runs):
    rows = []
    for r in runs:
        win = ", ".join(f"[data |-> {ids(w['data'])}, srcs |-> {ids(w['srcs'])}, dataIn |-> {ids(w['dataIn'])}, srcsIn |-> {ids(w['srcsIn'])}]" for w in r["windows"])
        vis = ", ".join(f"[data |-> {ids(d)}, srcs |-> {ids(s)}]" for d, s in r["visits"])
        rows.append(f"[windows |-> <<{win}>>, visits |-> <<{vis}>>]")
    return "---- MODULE RunData ----\nRuns == <<\n" + ",\n".join(rows) + "\n>>\n====\n"


def accepted(c, runs):
    r = c.tlc("BoostTrace", invariants=["Unaccepted"], files={"RunData.tla": module(runs)}, expect_reject=True, workers=2)
    return r.rejected is not None


def recorder(hm, **kw):
    """An estimator that notes the windows it is asked the jacobian for."""

    class Noting(hm.EquivalentSourcesGB):
        def jacobian(self, coordinates, points):
            self.log_.append((np.array([np.asarray(q) for q in coordinates]), np.array([np.asarray(q) for q in points])))
            return super().jacobian(coordinates, points)

    # scikit-learn reads the parameters from the signature of __init__
    eq = Noting(**kw)
    eq.log_ = []
    return eq


def index(chunk, full):
    """Which points (1-based) of ``full`` the columns of ``chunk`` are."""
    pos = {tuple(p): [] for p in full.T}
    for i, p in enumerate(full.T):
        pos[tuple(p)].append(i + 1)
    return {i for p in chunk.T for i in pos.get(tuple(p), [])}, all(tuple(p) in pos for p in chunk.T)


def solve(A, d, w, damping):
    s = A.std(axis=0) if len(A) > 1 else np.zeros(A.shape[1])
    s = np.where(s < 10 * np.finfo(float).eps * np.abs(A).max(axis=0), 1.0, s)
    r = np.sqrt(np.ones(len(d)) if w is None else w)
    B = r[:, None] * A / s
    if damping:
        z = np.linalg.solve(B.T @ B + damping * np.eye(len(s)), B.T @ (r * d))
    else:
        z = np.linalg.pinv(B) @ (r * d)
    return z / s, np.linalg.cond(B) if not damping else 1.0


def green(x, p):
    return 1 / np.sqrt(((x[:, :, None] - p[:, None, :]) ** 2).sum(axis=0))


def run(c, hm, case, g, n):
    lay = case["lay"]
    scale = float(g.choice([1.0, 0.1, 1234.5]))
    off = np.zeros(3) if n % 2 else g.uniform(-1e5, 8e6, 3) * np.array([1, 1, 0])
    # windows that only differ in the last digits of the coordinates are one window for the code
    free = [max(q[a] for q in lay["data"] + lay["srcs"]) - min(q[a] for q in lay["data"] + lay["srcs"]) - lay["w"] for a in range(2)]
    if any(0 < f * scale < 3e-5 * (abs(off[a]) + 50 * scale) for a, f in enumerate(free)):
        off = np.zeros(3)
    d0, s0 = (np.array(lay[k], dtype=float).T * scale for k in ("data", "srcs"))
    m, ns = d0.shape[1], s0.shape[1]
    below = lay["data"] == lay["srcs"]
    x = np.vstack([d0, (np.arange(m) % 5) * 0.01 * scale]) + off[:, None]
    p = np.vstack([s0, -scale * (1.0 + 0.01 * (np.arange(ns) % 7))]) + off[:, None]
    data = g.normal(size=m) * 20 + 3
    w = None if n % 3 else g.uniform(0.2, 4, m)
    damping = [None, 1e-2, 3.0][n % 3 if n % 5 else 1]
    size = lay["w"] * scale
    kw = dict(damping=damping, window_size=size if off.any() or scale != 1 or n % 4 else lay["w"], random_state=int(n), parallel=bool(n % 10 == 0))
    if below:
        kw["depth"] = scale
    else:
        kw["points"] = tuple(p)
    # rounding may make the largest possible window larger than the region
    ext = [max(x[a].max(), p[a].max()) - min(x[a].min(), p[a].min()) for a in range(2)]
    if kw["window_size"] >= min(ext) - 1e-6 * size:
        kw["window_size"] = min(ext)
    eq = recorder(hm, **kw)
    what = f"layout {lay}, scale {scale}, offset {off.tolist()}, damping {damping}, weights {w is not None}, seed {n}"
    if n % 4 == 2 and m % 2 == 0:
        args = (tuple(q.reshape(2, -1) for q in x), data.reshape(2, -1), None if w is None else w.reshape(2, -1))
    else:
        args = (tuple(x), data, w)
    if c.call(f"fit {what}", eq.fit, *args) is None:
        return None
    c.close(eq.window_size_, kw["window_size"], "window_size_")
    pts = np.array(eq.points_)
    rms = np.asarray(eq.rmse_per_iteration_, dtype=float)
    coef = np.asarray(eq.coefs_, dtype=float)
    A = green(x, pts)
    # what is left in the end is what the returned coefficients leave
    left = data - A @ coef
    amount = float((np.abs(A) @ np.abs(coef)).max() + np.abs(data).max())
    c.close(rms[0], np.sqrt((data ** 2).mean()), f"first error of {what}", rtol=1e-10)
    c.close(rms[-1], np.sqrt((left ** 2).mean()), f"last error of {what}", rtol=1e-8, atol=amount * 1e-9)
    # the order of the sources is that of the data or of the points
    order = None
    log = eq.log_
    c.validated(1, "fit")
    if len(log) != len(rms) - 1:
        c.counts["without record"] = c.counts.get("without record", 0) + 1
        return None
    visits = []
    res, mine, ok = data.copy(), np.zeros(ns), True
    for k, (cd, cp) in enumerate(log):
        di, good = index(cd, x)
        si, good2 = index(cp, pts)
        c.true(good and good2, f"visit {k} uses points that are not data or sources ({what})")
        visits.append((di, si))
        a, b = (np.array(sorted(q)) - 1 for q in (di, si))
        add, cond = solve(A[np.ix_(a, b)], res[a], None if w is None else w[a], damping)
        if cond > 1e4 or not ok:
            ok = False
            continue
        mine[b] += add
        res = res - A[:, b] @ add
        c.close(rms[k + 1], np.sqrt((res ** 2).mean()), f"error after visit {k} of {what}", rtol=1e-6, atol=amount * 1e-8)
    if ok:
        c.close(coef, mine, f"coefficients after all visits of {what}", rtol=1e-5, scale=float(np.abs(mine).max()))
        c.validated(1, "books", dict(layout=lay, visits=len(visits)))
    # the same seed gives the same fit, a refit too
    again = hm.EquivalentSourcesGB(**kw).fit(*args)
    c.close(np.asarray(again.coefs_), coef, f"a second fit with the same seed of {what}", rtol=1e-8, scale=float(np.abs(coef).max()))
    first = [(sorted(a), sorted(b)) for a, b in visits]
    eq.log_ = []
    eq.fit(*args)
    c.true([(sorted(index(a, x)[0]), sorted(index(b, pts)[0])) for a, b in eq.log_] == first, f"the order of the windows changed in a refit of {what}")
    c.close(np.asarray(eq.coefs_), coef, f"a refit of {what}", rtol=1e-8, scale=float(np.abs(coef).max()))
    mem = hm.EquivalentSourcesGB(**kw).estimate_required_memory(tuple(x))
    sizes = {len(a) * len(b) * 8 for a, b in visits}
    c.equal(int(mem), max(sizes), f"memory estimate of {what}")
    c.counts["several windows"] = c.counts.get("several windows", 0) + (len(visits) > 1)
    rec = dict(windows=case["windows"], visits=visits, what=what)
    if below:  # the sources are the data, in their order or not
        pos = {tuple(q): i + 1 for i, q in enumerate(x[:2].T)}
        if len(pos) < m:
            return rec if np.allclose(pts[:2], x[:2]) else None
    return rec


def check_runs(c, hm, cases, salt):
    g = rng(salt)
    recs = [r for r in (run(c, hm, k, g, n) for n, k in enumerate(cases)) if r]
    for k in range(0, len(recs), 25):
        part = recs[k:k + 25]
        if not accepted(c, part):
            for r in part:
                if not accepted(c, [r]):
                    c.violation(f"the windows that were fitted are not a behaviour of Boosting: {r['what']}", visits=[(sorted(a), sorted(b)) for a, b in r["visits"]], windows=r["windows"])
    c.counts["trace"] = c.counts.get("trace", 0) + len(recs)
    # a run with a missing, repeated or enlarged visit must not be accepted
    for r in recs:
        if len(r["visits"]) < 3:
            continue
        v = r["visits"]
        must = [w for w in r["windows"] if w["dataIn"] and w["srcsIn"]]
        if len(must) == len(v):
            for bad in (v[1:], [*v, v[0]]):
                if accepted(c, [dict(r, visits=bad)]):
                    raise MachineryError("a corrupted run was accepted")
            c.validated(1, "control")
            break


def check_orders(c, hm):
    """The seed decides the order."""
    g = rng(961)
    x = (np.repeat(np.arange(6.0), 6), np.tile(np.arange(6.0), 6), np.zeros(36))
    d = g.normal(size=36)
    seen = {}
    for seed in range(8):
        for _ in range(2):
            eq = recorder(hm, depth=1.0, damping=0.1, window_size=2.5, random_state=seed)
            eq.fit(x, d)
            seen.setdefault(seed, []).append(tuple(np.asarray(eq.coefs_)))
        c.true(np.allclose(*seen[seed], rtol=1e-9), f"seed {seed} gives different coefficients")
    c.true(len({tuple(np.round(v[0], 6)) for v in seen.values()}) > 1, "the seed has no effect on the order of the windows")
    for state in (np.random.RandomState(4),):
        import copy

        a = hm.EquivalentSourcesGB(depth=1.0, damping=0.1, window_size=2.5, random_state=copy.deepcopy(state)).fit(x, d)
        b = hm.EquivalentSourcesGB(depth=1.0, damping=0.1, window_size=2.5, random_state=copy.deepcopy(state)).fit(x, d)
        c.close(a.coefs_, b.coefs_, "fits from equal random states", rtol=1e-9)
    c.validated(1, "orders")


def check_single(c, hm, salt):
    """One window: the same as without windows."""
    g = rng(salt)
    for n in range(60 if THOROUGH else 16):
        m = int(g.integers(3, 40))
        x = g.uniform(0, 100, (3, m))
        x[2] *= 0.05
        x[:2, :4 if m >= 4 else 2] = np.array([[0, 0], [100, 100], [0, 100], [100, 0]])[: 4 if m >= 4 else 2].T
        d = g.normal(size=m)
        w = None if n % 2 else g.uniform(0.1, 5, m)
        kw = dict(damping=[None, 0.3][n // 2 % 2], depth=[20.0, "default", 35][n % 3])
        if n % 4 == 3:
            kw["block_size"] = 40
        plain = hm.EquivalentSources(**kw).fit(tuple(x), d, w)
        for size in ("default", 100.0, 100):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                if size != "default" and "block_size" not in kw and (x[0].max() - x[0].min() != 100 or x[1].max() - x[1].min() != 100):
                    continue
                gb = hm.EquivalentSourcesGB(window_size=size, **kw).fit(tuple(x), d, w)
            what = f"{kw}, {m} data, window {size}, weights {w is not None}"
            if size == "default":
                c.true(any("window" in str(q.message) for q in rec), f"no warning about the single window ({what})")
                c.true(gb.window_size_ is None, f"window_size_ {gb.window_size_} ({what})")
            c.close(np.array(gb.points_), np.array(plain.points_), f"sources {what}", rtol=1e-12)
            c.close(gb.coefs_, plain.coefs_, f"coefficients {what}", rtol=1e-6, scale=float(np.abs(plain.coefs_).max()))
            c.equal(len(gb.rmse_per_iteration_), 2, f"number of errors {what}")
            c.validated(1, "single")
        too = hm.EquivalentSourcesGB(window_size=101.0, **kw)
        c.raises(f"a window of 101 in a region of 100 ({kw})", ValueError, too.fit, tuple(x), d, w)


def check_limit(c, hm, salt):
    """Around 5000 data: a single window up to 5000, windows of about 5000 data beyond."""
    g = rng(salt)
    for m in (4999, 5000, 5001):
        x = g.uniform(0, 1000, (3, m)) * np.array([[1], [4], [0.02]])
        x[:2, :2] = [[0, 1000], [0, 4000]]
        p = [g.uniform(0, 1000, 8), g.uniform(0, 4000, 8), np.full(8, -300.0)]
        d = g.normal(size=m)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            gb = hm.EquivalentSourcesGB(points=tuple(p), damping=1e-3, random_state=2).fit(tuple(x), d)
        warned = any("window" in str(q.message) for q in rec)
        c.equal(warned, m <= 5000, f"warning about a single window with {m} data")
        if m <= 5000:
            c.true(gb.window_size_ is None, f"window_size_ {gb.window_size_} with {m} data")
            plain = hm.EquivalentSources(points=tuple(p), damping=1e-3).fit(tuple(x), d)
            c.close(gb.coefs_, plain.coefs_, f"coefficients with {m} data in one window", rtol=1e-6, scale=float(np.abs(plain.coefs_).max()))
        else:
            c.close(gb.window_size_, 1000.0, f"window_size_ with {m} data in a region of 1000 by 4000", rtol=1e-9)
        c.validated(1, "limit")


def check_default(c, hm, salt):
    """More than 5000 data: the default size holds about 5000 of them and fits in the region."""
    g = rng(salt)
    for n, (ne, nn) in enumerate([(80, 70), (300, 20), (72, 71), (101, 101), (15, 400)]):
        x = np.meshgrid(np.linspace(-5, 5, ne) * ne, np.linspace(2, 12, nn) * nn)
        x = [q.ravel() for q in x] + [np.zeros(ne * nn)]
        p = [g.uniform(x[0].min(), x[0].max(), 9), g.uniform(x[1].min(), x[1].max(), 9), np.full(9, -40.0)]
        if n == 3:
            p[0][0] = x[0].max() + 100
        W = [max(x[a].max(), p[a].max()) - min(x[a].min(), p[a].min()) for a in range(2)]
        eq = recorder(hm, points=tuple(p), damping=1.0, random_state=1)
        d = g.normal(size=ne * nn)
        what = f"{ne} x {nn} data with the default window"
        if c.call(f"fit of {what}", eq.fit, tuple(x), d) is None:
            continue
        c.close(eq.window_size_, min(np.sqrt(5e3 * W[0] * W[1] / (ne * nn)), *W), f"window_size_ of {what}", rtol=1e-9)
        if len(eq.log_) == len(eq.rmse_per_iteration_) - 1:
            seen = np.zeros(ne * nn, dtype=bool)
            key = {tuple(q): i for i, q in enumerate(np.array(x).T)}
            for cd, _ in eq.log_:
                seen[[key[tuple(q)] for q in cd.T]] = True
            if n == 2:
                c.true(seen.all(), f"{(~seen).sum()} data of {what} are in no window")
        mem = c.call("memory estimate", hm.EquivalentSourcesGB(points=tuple(p)).estimate_required_memory, tuple(x))
        if mem is not None:
            c.equal(int(mem), max(a.shape[1] * b.shape[1] for a, b in eq.log_) * 8 if eq.log_ else int(mem), f"memory estimate of {what}")
        c.validated(1, "default window")


def check(c):
    import harmonica as hm

    warnings.simplefilter("ignore")
    g = rng(962)
    small = "{[data |-> <<<<0, 0>>, <<3, 1>>, <<5, 4>>>>, srcs |-> <<<<1, 0>>, <<5, 4>>>>, w |-> 3], [data |-> <<<<0, 2>>, <<2, 0>>, <<1, 1>>>>, srcs |-> <<<<0, 0>>, <<2, 2>>>>, w |-> 2], " \
            "[data |-> <<<<0, 0>>, <<7, 3>>>>, srcs |-> <<<<6, 0>>, <<1, 2>>>>, w |-> 3]}"
    inv = ["Covered", "Square", "Overlap", "Books", "Untouched", "Emit"]
    c.tlc("Boosting", constants=dict(Layouts=small, Steps="{-1, 2}", WithBooks=True), invariants=inv)
    lays = layouts(g, 500 if THOROUGH else 130)
    r = c.tlc("Boosting", constants=dict(Layouts=tla(lays), Steps="{0}", WithBooks=False), invariants=inv)
    cases = r.cases
    k = len(cases) // 5 + 1
    c.parts(*[lambda s, j=j: check_runs(s, hm, cases[j * k:(j + 1) * k], 963 + j) for j in range(5)],
            lambda s: check_orders(s, hm), lambda s: check_single(s, hm, 970), lambda s: check_default(s, hm, 971), lambda s: check_limit(s, hm, 972))
    c.require("fit", 60)
    if c.counts.get("trace"):
        c.require("trace", 40)
        c.require("control", 1)
        c.require("books", 30)
        c.require("several windows", 30)
    c.require("single", 15)
    c.require("default window", 4)
    c.require("limit", 3)
