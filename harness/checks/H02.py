"""Calls in several threads under the schedules of Interleave.tla: each answers what it answers alone."""
import sys
import threading
import warnings

import numpy as np

from checks import H01, igrfcommon
from vlib import THOROUGH, MachineryError, prepare_imports, rng  # noqa: F401

SRC = None


class Baton:
    """Lets one thread run at a time; the schedule says who has the next chunk."""

    def __init__(self, schedule, cuts):
        self.schedule, self.cuts = schedule, cuts
        self.pos, self.free, self.done = 0, False, set()
        self.cond = threading.Condition()
        self.lines = [0] * len(cuts)

    def turn(self):
        while self.pos < len(self.schedule) and self.schedule[self.pos] in self.done:
            self.pos += 1
        if self.pos < len(self.schedule):
            return self.schedule[self.pos]
        rest = [t for t in range(len(self.cuts)) if t not in self.done]
        return rest[0] if rest else None

    def wait(self, t):
        with self.cond:
            while not self.free and self.turn() != t:
                if not self.cond.wait(3.0):
                    self.free = True  # whoever has the turn is waiting for this thread (a lock, say)
                    self.cond.notify_all()

    def chunk_over(self, t):
        with self.cond:
            if not self.free:
                self.pos += 1
                self.cond.notify_all()
        self.wait(t)

    def finish(self, t):
        with self.cond:
            self.done.add(t)
            if self.pos < len(self.schedule) and self.schedule[self.pos] == t:
                self.pos += 1
            self.cond.notify_all()

    def line(self, t):
        self.lines[t] += 1
        if self.lines[t] in self.cuts[t]:
            self.chunk_over(t)


WHO = {}  # ident of a running thread -> (baton, index)
TOOL = 4


def on_line(code, number):
    """Called at each line of Python code that starts in any thread."""
    if not code.co_filename.startswith(SRC):
        return sys.monitoring.DISABLE
    me = WHO.get(threading.get_ident())
    if me is not None:
        me[0].line(me[1])
    return None


def watch_lines():
    sys.monitoring.use_tool_id(TOOL, "H02")
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, on_line)
    sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)


def together(calls, schedule, cuts):
    """Run the calls in threads; returns [(state, value)] and the baton."""
    baton = Baton(schedule, cuts)
    out = [None] * len(calls)

    def work(t):
        baton.wait(t)
        WHO[threading.get_ident()] = (baton, t)
        try:
            out[t] = ("ok", calls[t]())
        except BaseException as e:  # noqa: BLE001
            out[t] = ("error", f"{type(e).__name__}: {e}")
        finally:
            WHO.pop(threading.get_ident(), None)
            baton.finish(t)

    threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(calls))]
    for th in threads:
        th.start()
    for th in threads:
        th.join(120)
        if th.is_alive():
            raise MachineryError(f"a thread did not end: schedule {schedule}")
    return out, baton


def shared_families(hm):
    """Objects that were prepared once and are only read by the calls."""
    F = {}
    g = np.random.default_rng(4)
    at = (50 * g.normal(size=9), 50 * g.normal(size=9), g.normal(size=9))
    sat = (20 * g.normal(size=9), 20 * g.normal(size=9), 6.4e6 + 100 * g.normal(size=9))
    d = g.normal(size=9)
    fitted = {"EquivalentSources": hm.EquivalentSources(damping=0.1, depth=30, parallel=False).fit(at, d),
              "EquivalentSourcesGB": hm.EquivalentSourcesGB(damping=0.1, depth=30, window_size=40.0, random_state=3, parallel=False).fit(at, d)}
    sph = hm.EquivalentSourcesSph(damping=0.1, relative_depth=1e5, parallel=False).fit(sat, d)
    obs = H01.Arrays(lambda v: tuple(np.random.default_rng([1, v]).normal(size=(3, 6)) * 50 + np.array([[0], [0], [80]])))
    so = H01.Arrays(lambda v: (60 * np.random.default_rng([2, v]).normal(size=5), 30 * np.random.default_rng([3, v]).normal(size=5), 6.41e6 + 1e4 * np.random.default_rng([4, v]).uniform(size=5)))
    fs = {k + " predict": (("obs",), lambda o, par, e=e: e.predict(o), True) for k, e in fitted.items()}
    fs["EquivalentSources grid"] = (("obs",), lambda o, par: fitted["EquivalentSources"].grid((np.arange(3) * 5.0 + o[0][0], np.arange(4) * 3.0, np.full((4, 3), 40.0))), True)
    fs["EquivalentSourcesSph predict"] = (("so",), lambda o, par: sph.predict(o), True)

    # own estimators in each thread
    def own(cls, **kw):
        def fn(o, par):
            e = cls(**kw)
            e.fit(o, o[0] + o[1])
            return e.predict(o), e.coefs_, e.points_
        return fn

    def euler(cls, **kw):
        def fn(o, par):
            e = cls(**kw)
            data = 1e3 / ((o[0] - 8) ** 2 + (o[1] - 5) ** 2 + (o[2] + 12) ** 2)
            e.fit(o, (data, *(-2 * (q - p) * data ** 2 / 1e3 for q, p in zip(o, (8, 5, -12)))))
            return [np.array(q, dtype=float) for q in (e.location_, e.base_level_, e.covariance_)]
        return fn

    fs["EquivalentSources fit"] = (("obs",), own(hm.EquivalentSources, damping=0.1, depth=30, parallel=False), True)
    fs["EquivalentSourcesGB fit"] = (("obs",), own(hm.EquivalentSourcesGB, damping=0.1, depth=30, window_size=40.0, random_state=3, parallel=False), True)
    fs["EquivalentSourcesSph fit"] = (("so",), own(hm.EquivalentSourcesSph, damping=0.1, relative_depth=1e5, parallel=False), True)
    fs["EulerDeconvolution"] = (("obs",), euler(hm.EulerDeconvolution, structural_index=2), False)
    fs["EulerInversion"] = (("obs",), euler(hm.EulerInversion), False)
    F["estimators"] = (dict(obs=obs, so=so), fs)
    return F


class Shaped:
    """Points in arrays of another number or shape in some versions."""

    def __init__(self, inner):
        self.inner = inner

    def new(self, v):
        out = self.inner.new(v)
        n = len(out[0])
        return out if v == 1 else tuple(q[: n - n % 2].reshape(2, -1) for q in out) if v == 2 else tuple(q[: n - 1] for q in out)


SKIP = {"equivalent sources", "euler"}  # these keep one estimator for a whole session; see shared_families


def run(c, hm, name, schedules, salt):
    undo = igrfcommon.install(hm, igrfcommon.coefficients(3))
    F, made = H01.families(hm)
    F.update(shared_families(hm))
    objs, funs = F[name]
    objs = {o: Shaped(k) if o in ("obs", "so", "sph", "geo") else k for o, k in objs.items()}
    g = rng(salt)
    watch_lines()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            known, length = {}, {}

            def ref(f, v):
                """v: the version of each object."""
                key = (f, *(v[o] for o in funs[f][0]))
                if key not in known:
                    takes, fn, _ = funs[f]
                    state, value = H01.fork(lambda: H01.flat(fn(*[objs[o].new(v[o]) for o in takes], False)))
                    if state == "error":
                        c.violation(f"{f} of versions {v} raised {value}")
                        value = None
                    known[key] = value
                return known[key]

            for f, (takes, fn, _) in funs.items():
                try:
                    fn(*[objs[o].new(1) for o in takes], False)  # compile
                except Exception as e:  # noqa: BLE001
                    c.violation(f"{f} raised {type(e).__name__}: {e}")
                    return
                out, baton = together([lambda: fn(*[objs[o].new(1) for o in takes], False)], [0], [set()])
                length[f] = baton.lines[0]
            names = list(funs)
            if min(length.values()) < 3:
                raise MachineryError(f"lines seen: {length}")
            # every function against itself with other arguments, and against some others
            pairs = [(f, f) for f in names] + [(f, names[int(g.integers(len(names)))]) for f in names]
            for k, (f1, f2) in enumerate(pairs):
                mine = []
                # one call is interrupted at any of its lines by the whole other one
                n1, n2 = length[f1], length[f2]
                at = range(1, n1 + 1) if n1 <= (200 if THOROUGH else 25) else sorted(set(g.choice(np.arange(1, n1 + 1), 200 if THOROUGH else 25, replace=False).tolist()))
                mine += [([0, 1, 0], [{int(i)}, set()]) for i in at]
                # interleavings of chunks
                some = schedules[2] if THOROUGH else [schedules[2][int(i)] for i in g.choice(len(schedules[2]), 16, replace=False)]
                for s in some:
                    cut = [set(map(int, g.choice(np.arange(1, n + 1), min(3, n), replace=False))) for n in (n1, n2)]
                    mine.append((s, cut))
                for s in [schedules[3][int(i)] for i in g.choice(len(schedules[3]), 12 if THOROUGH else 4, replace=False)]:
                    cut = [set(map(int, g.choice(np.arange(1, n + 1), min(2, n), replace=False))) for n in (n1, n2, n1)]
                    mine.append((s, cut))
                for m, (s, cut) in enumerate(mine):
                    fs = (f1, f2, f1)[: len(cut)]
                    vs = [{o: 1 + (m + t) % 3 for o in objs} for t in range(len(cut))]
                    # all arguments are different objects; or the same objects in all threads; or all but one
                    common = {o: objs[o].new(vs[0][o]) for o in funs[f1][0] if o in funs[f2][0]} if m % 4 != 0 else {}
                    if m % 4 != 3 and common and len(funs[f1][0]) > 1:
                        common.pop(sorted(common)[(m // 4) % len(common)])
                    for v in vs:
                        v.update({o: vs[0][o] for o in common})
                    args = [[common[o] if o in common else objs[o].new(v[o]) for o in funs[f][0]] for f, v in zip(fs, vs)]
                    want = [ref(f, v) for f, v in zip(fs, vs)]
                    if any(w is None for w in want):
                        return
                    out, baton = together([lambda f=f, a=a: funs[f][1](*a, False) for f, a in zip(fs, args)], s, cut)
                    for f, v, (state, value), w in zip(fs, vs, out, want):
                        what = f"{f} with versions {v} of its arguments, run together with {[x for x in fs]} in the order {s}, chunks ending at lines {[sorted(q) for q in cut]}"
                        if state == "error":
                            c.violation(f"{what}: raised {value}")
                            return
                        if not H01.same(H01.flat(value), w):
                            c.violation(f"{what}: not what it gives alone", got=H01.flat(value), specified=w)
                            return
                    if baton.free:
                        c.counts["free"] = c.counts.get("free", 0) + 1
                        if c.counts["free"] > 20:
                            break  # locks: the schedules do not apply
                    c.validated(1, name, dict(functions=fs, schedule=s, cuts=[sorted(q) for q in cut]) if k < 2 and m == len(mine) - 1 else None)
                for o, q in objs.items():
                    if hasattr(q, "clean"):
                        q.clean()
            c.counts["lines"] = c.counts.get("lines", 0) + sum(length.values())
    finally:
        undo()
        for k in objs.values():
            if hasattr(k, "clean"):
                k.clean()


def check(c):
    global SRC
    import pathlib

    import harmonica as hm

    SRC = str(pathlib.Path(hm.__file__).parent)
    inv = ["AsAlone", "Count", "Emit"]
    two = c.tlc("Interleave", constants=dict(Threads="{0, 1}", Chunks="(0 :> 4 @@ 1 :> 4)", Place='"own"'), invariants=inv, properties=["Ends"])
    three = c.tlc("Interleave", constants=dict(Threads="{0, 1, 2}", Chunks="(0 :> 3 @@ 1 :> 3 @@ 2 :> 3)" if THOROUGH else "(0 :> 3 @@ 1 :> 2 @@ 2 :> 2)", Place='"own"'), invariants=inv)
    bad = c.tlc("Interleave", constants=dict(Threads="{0, 1}", Chunks="(0 :> 2 @@ 1 :> 1)", Place='"shared"'), invariants=["AsAlone"], expect_reject=True)
    if bad.rejected is None:
        raise MachineryError("shared memory was accepted")
    schedules = {2: [q["schedule"] for q in two.cases], 3: [q["schedule"] for q in three.cases]}
    if len(schedules[2]) != 70 or len(schedules[3]) < 200:
        raise MachineryError(f"schedules: {len(schedules[2])} {len(schedules[3])}")
    undo = igrfcommon.install(hm, igrfcommon.coefficients(3))
    names = [n for n in H01.families(hm)[0] if n not in SKIP] + ["estimators"]
    undo()
    c.parts(*(lambda s, n=n, i=i: run(s, hm, n, schedules, 1200 + i) for i, n in enumerate(names)))
    for n in names:
        c.require(n, 100)
    c.require("lines", 500)
