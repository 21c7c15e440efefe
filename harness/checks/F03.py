"""Parallel, serial and progress-bar runs.

1. ParallelLoop.tla: every interleaving of the workers; conflict-free loops give the specified sums and progress counts,
   loops that share a cell (negative control) do not.
2. The real loops are executed one iteration at a time (JIT off); ParallelTrace.tla accepts the record only when the loops
   are conflict free and every iteration advances the progress bar once.
3. The configurations of (1) are replayed on the compiled code: thread counts x points x sources x progress bar.
"""
import io
import json
import os
import subprocess
import sys

import numpy as np

import vlib
from vlib import ROOT, THOROUGH


def tla(runs):
    def it(e):
        return f"[writes |-> <<{', '.join(map(str, e['writes']))}>>, same |-> {'TRUE' if e['same'] else 'FALSE'}, ticks |-> {e['ticks']}]"

    rows = [f"[n |-> {r['n']}, points |-> {r['points']}, bar |-> {'TRUE' if r['bar'] else 'FALSE'}, cells |-> {r['cells']}, iters |-> <<{', '.join(it(e) for e in r['iters'])}>>]"
            for r in runs]
    return "---- MODULE RunData ----\nEXTENDS Integers, Sequences\nRuns == <<\n" + ",\n".join(rows) + ">>\n====\n"


def isolated(c):
    env = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(ROOT, "harness", "isolated.py")], env=env, capture_output=True, text=True, timeout=700)
    line = [q for q in p.stdout.splitlines() if q.startswith("@@RUNS")]
    if p.returncode != 0 or not line:
        if "/repo/src/harmonica" in p.stderr.split("Traceback")[-1]:
            c.violation("the loops cannot be executed one iteration at a time: " + p.stderr.strip().splitlines()[-1], trace=p.stderr[-3000:])
            return
        raise vlib.MachineryError("isolated.py failed: " + p.stderr[-2000:])
    runs = json.loads(line[0][6:])
    runs = [r for r in runs if not r.get("noloop")]
    for r in runs:
        if r["bar"]:
            c.equal(r["total"], r["points"], f"{r['name']}: total of the progress bar")
    todo = runs
    while todo:
        res = c.tlc("ParallelTrace", invariants=["NotStuck"], files={"RunData.tla": tla(todo)}, expect_reject=True, workers=1)
        if not res.rejected:
            break
        # the last state of the counterexample names the run and the iteration the specification does not accept
        import re

        k = [int(v) for v in re.findall(r"^/\\ r = (\d+)", res.rejected, re.M)][-1]
        i = [int(v) for v in re.findall(r"^/\\ i = (\d+)", res.rejected, re.M)][-1]
        bad = todo[k - 1]
        c.violation(f"{bad['name']}: the recorded loop is not conflict free (rejected at iteration {i} of {bad['n']}, progress bar {bad['bar']})", run=bad)
        todo = todo[k:]
    for r in runs:
        c.validated(r["n"], "isolated", r if len(c.samples) < 2 else None)
        c.counts["loop:" + r["name"].split(" (")[0]] = 1
    c.require("isolated", 100)


def replay(c, hm, names, configs):
    import numba
    import numba_progress

    import parcommon

    B = parcommon.builders(hm)
    real = numba_progress.ProgressBar
    bars = []

    class Bar(real):
        def __init__(self, *a, **k):
            bars.append(self)
            self.given_total = k.get("total", a[0] if a else None)
            k["file"] = io.StringIO()
            super().__init__(*[], **k)

    numba_progress.ProgressBar = Bar
    try:
        for name in names:
            for k, cf in enumerate(configs):
                n, m = max(cf["n"], 1), max(cf["m"], 1)
                if cf["bar"] and name not in parcommon.WITH_BAR:
                    continue
                numba.set_num_threads(cf["w"])
                reps = [n] if name.startswith("tesseroid") else [n, n + 4 * cf["w"] + 1, 16 * n * cf["w"] + k % 3]
                for size in reps:
                    thunk = B[name](size, m)
                    if name in parcommon.NO_SERIAL:
                        numba.set_num_threads(1)
                        want = thunk(False, False)
                        numba.set_num_threads(cf["w"])
                    else:
                        want = thunk(False, False)
                    for par in (True, False) if name not in parcommon.NO_SERIAL else (True,):
                        if not par and not cf["bar"]:
                            continue
                        for again in range(4 if THOROUGH else 2):
                            bars.clear()
                            got = c.call(f"{name} parallel={par} progressbar={cf['bar']}", thunk, par, cf["bar"])
                            if got is None:
                                continue
                            c.close(got, want, f"{name} with {cf['w']} threads, {size} points, {m} sources, parallel={par}, progressbar={cf['bar']}, "
                                    "against the serial run", rtol=1e-9, scale=float(np.abs(want).max()), config=cf)
                            if cf["bar"]:
                                c.equal([int(b.n) for b in bars], [size], f"{name}: final counts of the progress bars, parallel={par}, {size} points")
                    c.validated(1, name)
    finally:
        numba_progress.ProgressBar = real


def check(c):
    import harmonica as hm

    import parcommon

    inv = ["Deterministic", "ProgressExact"]
    spec = c.tlc("ParallelLoop", constants=dict(MaxN=4 if THOROUGH else 3, MaxM=2, MaxW=3, Owned=True, AtomicProgress=True),
                 invariants=inv + ["AlwaysExact", "Emit"])
    for kw, neg in ((dict(Owned=False, AtomicProgress=True), "AlwaysExact"), (dict(Owned=True, AtomicProgress=False), "ProgressExact")):
        r = vlib.run_tlc("ParallelLoop", constants=dict(MaxN=2, MaxM=2, MaxW=2, **kw), invariants=[neg], expect_reject=True)
        if not r.rejected:
            raise vlib.MachineryError(f"negative control {kw} not rejected")
    configs = []
    for k in spec.cases:
        if k["n"] and k["m"] and k not in configs:
            configs.append(k)
    B = list(parcommon.builders(hm))
    groups = [[n for i, n in enumerate(B) if i % 8 == g] for g in range(8)]
    c.parts(isolated, *[lambda sub, g=g: replay(sub, hm, g, configs) for g in groups])
    for n in B:
        c.require(n, 6)
        c.require("loop:" + n)
