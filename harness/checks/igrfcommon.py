"""A coefficient file in the layout of igrf14coeffs.txt, with other numbers (the real one needs the network)."""
import pathlib
import tempfile

import numpy as np

YEARS = list(range(1900, 2030, 5))
NMAX = 13


def coefficients(seed=0, integer=True):
    """dict (kind, n, m) -> values at the epochs followed by the secular variation."""
    g = np.random.default_rng([14, seed])
    out = {}
    for n in range(1, NMAX + 1):
        for m in range(n + 1):
            for kind in ("g", "h"):
                if kind == "h" and m == 0:
                    continue
                amp = 30000.0 * 0.35 ** (n - 1) + 3
                v = np.cumsum(np.concatenate([[g.normal(0, amp)], g.normal(0, amp / 50 + 1, len(YEARS) - 1)]))
                sv = g.normal(0, amp / 300 + 0.2)
                out[kind, n, m] = [float(np.round(x, 1)) for x in v] + [float(np.round(sv, 1))]
    return out


def write(path, coeffs):
    lines = ["# 14th generation model, synthetic numbers", "# to check the implementation", "c/s deg ord " + " ".join(["IGRF"] * len(YEARS)) + " SV",
             "g/h n m " + " ".join(f"{y}.0" for y in YEARS) + " 2025-30"]
    for (k, n, m), v in coeffs.items():
        lines.append(f"{k} {n:2d} {m:2d} " + " ".join(f"{x:9.2f}" for x in v))
    pathlib.Path(path).write_text("\n".join(lines) + "\n")


def install(hm, coeffs):
    """Make IGRF14 read the given coefficients; returns a function that undoes it."""
    import pooch

    d = tempfile.mkdtemp(prefix="igrf-")
    path = pathlib.Path(d) / "igrf14coeffs.txt"
    write(path, coeffs)
    old = hm.IGRF14._fetch_coefficient_file
    old_retrieve = pooch.retrieve
    hm.IGRF14._fetch_coefficient_file = lambda self: path
    pooch.retrieve = lambda *a, **k: str(path)

    def undo():
        import shutil

        hm.IGRF14._fetch_coefficient_file = old
        pooch.retrieve = old_retrieve
        shutil.rmtree(d, ignore_errors=True)

    return undo
