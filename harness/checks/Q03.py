"""Histories of estimators (EstimatorLife.tla) against fresh ones."""
import copy
import warnings

import numpy as np

from vlib import THOROUGH, rng

DATA = ["small", "other", "integer", "weighted"]
DAMPS = ["none", "mild"]
PLACES = {"cartesian": ["below", "deep", "blocks", "custom"], "gb": ["below", "blocks", "custom", "windows"], "sph": ["below", "deep", "custom"]}
WEIGHTY = ("coefs_", "points_", "depth_", "region_", "window_size_", "rmse_per_iteration_")


def data_of(which, label):
    """Fresh arrays each time: (coords, data, weights)."""
    g = np.random.default_rng([DATA.index(label), 77])
    m = {"small": 12, "other": 20, "integer": 9, "weighted": 15}[label]
    if which == "sph":
        x = [np.arange(m) % 4 * 3 + g.uniform(-1, 1, m), np.arange(m) // 4 * 3 + g.uniform(-1, 1, m), 6.4e6 + g.uniform(0, 2e4, m)]
    else:
        x = [np.arange(m) % 4 * 30 + g.uniform(-9, 9, m), np.arange(m) // 4 * 30 + g.uniform(-9, 9, m), g.uniform(-5, 5, m)]
    d = g.normal(size=m) * 10
    if label == "integer":
        x, d = [np.round(q).astype(int) for q in x], np.round(d).astype(int)
    if label == "other":
        x = [q.reshape(4, 5) for q in x]
        d = d.reshape(4, 5)
    w = g.uniform(0.1, 3, m) if label == "weighted" else None
    return x, d, w


def options(which, damping, place):
    kw = dict(damping={"none": None, "mild": 0.01}[damping])
    sph = which == "sph"
    custom = [np.array([1.0, 40.0, 70.0]), np.array([5.0, 30.0, 66.0]), np.array([-40.0, -50.0, -35.0])]
    if sph:
        custom = [np.array([1.0, 5.0, 7.0]), np.array([2.0, 3.0, 6.0]), np.array([6.0e6, 6.1e6, 6.05e6])]
        return dict(kw, points=tuple(custom) if place == "custom" else None, relative_depth=8e5 if place == "deep" else 3e5)
    kw.update(points=tuple(custom) if place == "custom" else None, depth=70 if place == "deep" else "default" if place in ("blocks",) else 35.5, block_size=45 if place == "blocks" else None)
    if which == "gb":
        kw.update(window_size=40 if place == "windows" else "default", random_state=5)
    return kw


def state(eq):
    return {k: copy.deepcopy(getattr(eq, k)) for k in WEIGHTY if hasattr(eq, k)}


def same(a, b, rtol=0.0):
    if a.keys() != b.keys():
        return False
    for k, v in a.items():
        if (v is None) != (b[k] is None):
            return False
        if v is not None and not (np.shape(v) == np.shape(b[k]) and np.allclose(np.asarray(v, dtype=float), np.asarray(b[k], dtype=float), rtol=rtol, atol=0 if rtol == 0 else 1e-9 * np.abs(np.asarray(v, dtype=float)).max())):
            return False
    return True


class Player:
    def __init__(self, c, hm, which):
        self.c, self.hm, self.which = c, hm, which
        self.cls = {"cartesian": hm.EquivalentSources, "gb": hm.EquivalentSourcesGB, "sph": hm.EquivalentSourcesSph}[which]
        g = np.random.default_rng(3)
        if which == "sph":
            self.at = [g.uniform(-2, 12, 6), g.uniform(-2, 12, 6), g.uniform(6.41e6, 6.5e6, 6)]
        else:
            self.at = [g.uniform(-20, 120, 6), g.uniform(-20, 120, 6), g.uniform(10, 50, 6)]
        self.ref = {}

    def reference(self, fitted, parallel):
        key = (fitted["data"], fitted["damping"], fitted["place"], parallel)
        if key not in self.ref:
            eq = self.cls(parallel=parallel, **options(self.which, fitted["damping"], fitted["place"]))
            x, d, w = data_of(self.which, fitted["data"])
            eq.fit(tuple(x), d, w)
            self.ref[key] = (np.array(eq.predict(tuple(self.at))), state(eq))
        return self.ref[key]

    def ask(self, eq, what, g):
        c, hm, at = self.c, self.hm, tuple(self.at)
        if what == "predict":
            v = eq.predict(at)
            v += 1  # the caller's own array
        elif what == "grid":
            gr = eq.grid((np.array([0.0, 5.0, 9.0]), np.array([1.0, 4.0]), np.full((2, 3), self.at[2].max())))
            gr["scalars"].values[:] = 0
        elif what == "profile":
            if self.which == "sph":
                try:
                    eq.profile((0, 0), (3, 4), 5)
                except NotImplementedError:
                    return
            else:
                eq.profile((0.0, 0.0), (30.0, 40.0), 20.0, 5)
        elif what == "score":
            x, d, w = data_of(self.which, "other")
            eq.score(tuple(x), d)
        elif what == "jacobian":
            eq.jacobian(at, tuple(q[:3] - d for q, d in zip(at, (0.0, 0.0, 77.0))))
        elif what == "memory":
            x, _, _ = data_of(self.which, "weighted")
            m = eq.estimate_required_memory(tuple(x))
            c.true(m > 0, f"memory estimate {m}")
        elif what == "params":
            p = eq.get_params()
            p["damping"] = "changed"
        elif what == "repr":
            repr(eq)

    def replay(self, case, g, n):
        from sklearn.base import clone

        c, which = self.c, self.which
        parallel = bool(n % 9 == 0)
        cur = dict(case["trail"][0][1])
        eq = self.cls(parallel=parallel, **options(which, **cur))
        fitted, arrays = None, None
        for k, op in enumerate(case["trail"][1:]):
            what = f"{which}: {case['trail'][: k + 2]}"
            before = state(eq)
            if op[0] == "fit":
                x, d, w = data_of(which, op[1])
                arrays = (*x, d, w)
                keep = copy.deepcopy(arrays)
                if c.call(what, eq.fit, tuple(x), d, w) is None:
                    return
                c.true(all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(arrays, keep)), f"{what}: the arrays of the caller were modified")
                fitted = dict(cur, data=op[1])
            elif op[0] == "bad fit":
                x, d, w = data_of(which, "small")
                if op[1] == "data":
                    d = d[:-1]
                elif op[1] == "weights":
                    w = np.ones(5)
                else:
                    x[1] = x[1][:-2]
                if not c.raises(what, ValueError, eq.fit, tuple(x), d, w):
                    return
            elif op[0] == "refused":
                from sklearn.exceptions import NotFittedError

                if which == "sph" and op[1] == "profile":
                    continue
                if not c.raises(what, (NotFittedError,), self.ask, eq, op[1], g):
                    return
            elif op[0] == "ask":
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        self.ask(eq, op[1], g)
                except Exception as e:  # noqa: BLE001
                    c.violation(f"{what}: raised {type(e).__name__}: {e}")
                    return
            elif op[0].startswith("set"):
                cur[op[0][4:]] = op[1]
                eq.set_params(**options(which, **cur))
            elif op[0] == "clone":
                eq = clone(eq)
                fitted, arrays = None, None
            elif op[0] == "deep copy":
                eq = copy.deepcopy(eq)
            elif op[0] == "reuse arrays":
                for a in arrays:
                    if a is not None:
                        a += 1000
                if cur["place"] == "custom" and eq.points is not None:
                    # the caller also reuses the arrays it gave as positions of the sources
                    ask = fitted is not None and n % 2 == 0
                    was = np.array(eq.predict(tuple(self.at))) if ask else None
                    for a in eq.points:
                        a -= 10 if which != "sph" else 1e4
                    if ask:
                        c.close(np.array(eq.predict(tuple(self.at))), was, f"{what}: predictions after the caller changed its arrays of points", rtol=1e-12, scale=float(np.abs(was).max()))
                    c.true(same(before, state(eq)), f"{what}: fitted attributes changed with the arrays of points of the caller")
                    eq.set_params(**options(which, **cur))
                    c.counts["points reused"] = c.counts.get("points reused", 0) + 1
            if op[0] not in ("fit", "clone"):
                c.true(same(before, state(eq)), f"{what}: fitted attributes changed", before=before, after=state(eq))
            if op[0] == "clone":
                c.equal(sorted(state(eq)), [], f"{what}: fitted attributes of a clone")
        c.equal(fitted is None, case["fitted"]["data"] == "none", "the specification and the replay agree")
        if fitted is not None:
            want, attrs = self.reference(case["fitted"], parallel)
            got = c.call(f"predict after {case['trail']}", eq.predict, tuple(self.at))
            if got is not None:
                c.close(got, want, f"{which}: predictions after {case['trail']} against a fresh estimator", rtol=1e-7, scale=float(np.abs(want).max()))
            c.true(same(attrs, state(eq), 1e-7), f"{which}: fitted attributes after {case['trail']} against a fresh estimator", got=state(eq), want=attrs)
        now = eq.get_params()
        for k, v in options(which, **cur).items():
            c.true(np.array_equal(np.asarray(now[k], dtype=object), np.asarray(v, dtype=object)) if k != "points" else (v is None) == (now[k] is None) and (v is None or np.array_equal(np.array(v), np.array(now[k]))),
                   f"{which}: parameter {k} is {now[k]!r} after {case['trail']}, specified {v!r}")
        c.validated(1, which, dict(trail=case["trail"]))
        c.counts["fitted" if fitted else "not fitted"] = c.counts.get("fitted" if fitted else "not fitted", 0) + 1


def check(c):
    import harmonica as hm

    warnings.simplefilter("ignore")
    parts = []
    g = rng(951)
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(3) as ex:
        short = {w: ex.submit(c.tlc, "EstimatorLife", constants=dict(Data=set(f'"{d}"' for d in DATA), Damps='{"none", "mild"}', Places=set(f'"{p}"' for p in PLACES[w]), MaxOps=4 if THOROUGH else 2),
                              invariants=["LastFit", "Emit"], properties=["Quiet"]) for w in PLACES}
        long_ = {w: ex.submit(c.tlc, "EstimatorLife", constants=dict(Data=set(f'"{d}"' for d in DATA), Damps='{"none", "mild"}', Places=set(f'"{p}"' for p in PLACES[w]), MaxOps=12),
                              invariants=["LastFit", "Emit"], properties=["Quiet"], simulate=80 if THOROUGH else 16, depth=13) for w in PLACES}
    for j, which in enumerate(PLACES):
        a, b = short[which].result().cases, [k for k in long_[which].result().cases if len(k["trail"]) > 7]
        reuse = [k for k in a if any(op[0] == "reuse arrays" for op in k["trail"][1:])]
        picks = [reuse[i] for i in g.permutation(len(reuse))[:40]] + [a[i] for i in g.permutation(len(a))[: 8000 if THOROUGH else 250]] + [b[i] for i in g.permutation(len(b))[: 3000 if THOROUGH else 200]]
        for h in range(2):
            def run(s, which=which, ks=picks[h::2], salt=952 + 2 * j + h):
                p = Player(s, hm, which)
                gg = rng(salt)
                for n, k in enumerate(ks):
                    p.replay(k, gg, n)

            parts.append(run)
    c.parts(*parts)
    for w in PLACES:
        c.require(w, 200)
    c.require("fitted", 200)
    c.require("points reused", 5)
