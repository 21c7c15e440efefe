"""Run every parallel loop of the repository one iteration at a time and print what each iteration did (JSON).

Executed with NUMBA_DISABLE_JIT=1; numba.prange and the progress bar are replaced by recorders before harmonica is imported.
"""
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numba  # noqa: E402
import numba_progress  # noqa: E402
import numpy as np  # noqa: E402

import vlib  # noqa: E402

assert os.environ.get("NUMBA_DISABLE_JIT") == "1"
plan = {"loop": None, "iters": None}
seen = {"loops": []}
ticks = [0, 0]


def prange(*a):
    k = len(seen["loops"])
    full = range(*a)
    seen["loops"].append(len(full))
    return [full[i] for i in plan["iters"]] if plan["loop"] == k else full


class Bar:
    def __init__(self, total=None, **kw):
        ticks[1] = total

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def update(self, n=1):
        ticks[0] += n

    def close(self):
        pass


numba.prange = prange
numba_progress.ProgressBar = Bar
np_empty = np.empty


def empty(shape, dtype=float, *a, **k):
    r = np_empty(shape, dtype, *a, **k)
    if r.dtype.kind == "f":
        r.fill(np.nan)
    return r


np.empty = empty
vlib.prepare_imports()
warnings.simplefilter("ignore")
import harmonica as hm  # noqa: E402
import parcommon  # noqa: E402


def run(thunk, bar, loop=None, iters=None):
    plan.update(loop=loop, iters=iters)
    seen["loops"] = []
    ticks[:] = [0, None]
    r = np.asarray(thunk(True, bar), float).ravel()
    return r, ticks[0], list(seen["loops"])


def same(a, b):
    return bool(np.all((np.abs(a - b) <= 1e-12 * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


out = []
sizes = [(4, 2), (3, 1)] + ([(7, 3), (2, 5)] if vlib.THOROUGH else [])
B = parcommon.builders(hm)
for name, b in B.items():
    for n, m in sizes:
        for bar in ((False, True) if name in parcommon.WITH_BAR else (False,)):
            thunk = b(n, m)
            full, t, loops = run(thunk, bar)
            total = ticks[1]
            for loop, size in enumerate(loops):
                none, t0, _ = run(thunk, bar, loop, [])
                iters = []
                for i in range(size):
                    r, ti, _ = run(thunk, bar, loop, [i])
                    changed = ~((r == none) | (np.isnan(r) & np.isnan(none)))
                    iters.append(dict(writes=[int(k) + 1 for k in np.flatnonzero(changed)], same=same(r[changed], full[changed]), ticks=ti - t0))
                out.append(dict(name=f"{name} ({n} points, {m} sources, loop {loop})", n=size, bar=bar, points=n, cells=full.size, iters=iters,
                                total=total, ticks=t))
            if not loops:
                out.append(dict(name=name, n=0, bar=bar, cells=0, iters=[], total=total, ticks=t, noloop=True))
print("@@RUNS" + json.dumps(out))
