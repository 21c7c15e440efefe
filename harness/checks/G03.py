"""Associated Legendre functions: the table of Legendre.tla against the routines of the library."""
from fractions import Fraction

import numpy as np

from vlib import MachineryError, THOROUGH, rng

from . import legcommon as lc

INVARIANTS = ["Integral", "Order", "Parity", "Equation", "End", "OtherEnd", "Ratio", "Emit"]


def routines():
    from harmonica._spherical_harmonics import legendre as lg

    return {"plain": (lg.associated_legendre, lg.associated_legendre_derivative), "schmidt": (lg.associated_legendre_schmidt, lg.associated_legendre_schmidt_derivative),
            "full": (lg.associated_legendre_full, lg.associated_legendre_full_derivative)}


def garbage(g, top, extra=0):
    """Arrays that may hold anything before the call."""
    n = top + 1 + extra
    margin = 3 * n + 8
    whole = np.full(n * n + 2 * margin, 77.0)
    a = whole[margin:-margin].reshape(n, n)
    a[:] = np.nan if g.integers(2) else g.normal(size=(n, n)) * 1e3
    return a


def untouched(a):
    """Nothing was written next to the array."""
    whole = a.base if a.base.ndim == 1 else a.base.base
    margin = (whole.size - a.size) // 2
    return bool((whole[:margin] == 77).all() and (whole[-margin:] == 77).all())


def compute(c, kind, x, top, g, extra=0):
    fn, deriv = routines()[kind]
    p, d, dd = (garbage(g, top, extra) for _ in range(3))
    fn(float(x), top, p)
    keep = p.copy()
    deriv(top, p, d)
    c.true(np.array_equal(p, keep, equal_nan=True), f"the derivative of {kind} functions changed the functions")
    deriv(top, d, dd)
    c.true(all(untouched(a) for a in (p, d, dd)), f"{kind} functions up to degree {top}: values written outside of the array")
    return p, d, dd


def norm(kind, n, m):
    """Magnitude of the functions of a degree and order."""
    s = 1.0 if kind == "schmidt" else np.sqrt(2.0 * n + 1)
    if kind == "plain":
        s = lc.root(1 / lc.squares("schmidt", n, m))
    return s


def points(g):
    xs = [Fraction(k, 16) for k in range(-16, 17)] + [Fraction(1) - Fraction(1, 2 ** 20), Fraction(1, 2 ** 30), Fraction(-1) + Fraction(1, 2 ** 12), Fraction(1) - Fraction(1, 2 ** 52)]
    return xs + [Fraction(float(v)) for v in g.uniform(-1, 1, 40 if THOROUGH else 8)]


def exact(kind, cases):
    def part(c):
        g = rng(1000)
        top = 30 if THOROUGH else 20
        tab = lc.table(max(top, 13))
        for k in cases:  # the exact table is the one of the specification
            if tab[k["n"], k["m"]] != k["q"] or k["scale"] != 2 ** k["n"]:
                raise MachineryError("the exact table differs from the specification's")
        c.validated(len(cases), "spec table")
        for x in points(g):
            n_max = 13 if kind == "plain" else top
            p, d, dd = compute(c, kind, x, n_max, g, extra=int(g.integers(3)))
            for n in range(n_max + 1):
                for m in range(n + 1):
                    want = lc.functions(kind, tab[n, m], n, m, x)
                    size = norm(kind, n, m)
                    for name, got, w, scale in (("function", p, want[0], size), ("derivative", d, want[1], size * (n + 1)), ("second derivative", dd, want[2], size * (n + 1) ** 2)):
                        # the sine of the argument is only known to the precision of the argument
                        if not abs(got[n, m] - w) <= 1e-12 * scale:
                            c.violation(f"{kind} {name} of degree {n} and order {m} at {float(x)!r}: got {got[n, m]!r}, specified {w!r}")
            c.validated(1, kind)
        # tables of every size, one degree up to the documented maximum of the unnormalized functions
        for top in range(14):
            x = Fraction(float(g.uniform(-1, 1)))
            p, d, dd = compute(c, kind, x, top, g)
            for m in range(top + 1):
                want = lc.functions(kind, tab[top, m], top, m, x)
                size = norm(kind, top, m)
                c.close(p[top, m], want[0], f"{kind} function of the highest degree {top}, order {m}", rtol=0, atol=1e-12 * size)
                c.close(d[top, m], want[1], f"{kind} derivative of the highest degree {top}, order {m}", rtol=0, atol=1e-12 * size * (top + 1))
                c.close(dd[top, m], want[2], f"{kind} second derivative of the highest degree {top}, order {m}", rtol=0, atol=1e-12 * size * (top + 1) ** 2)
            c.validated(1, "sizes")
    return part


def identities(kind, top, count, salt):
    """Relations between the functions of a table, up to high degrees."""
    def part(c):
        g = rng(salt)
        fulls = np.sqrt(2.0 * np.arange(top + 1) + 1)[:, None] if kind == "full" else np.ones((top + 1, 1))
        n = np.arange(top + 1)[:, None].astype(float)
        m = np.arange(top + 1)[None, :].astype(float)
        inside = m <= n

        def tables(x):
            out = []
            for a in compute(c, kind, x, top, g):
                out.append(np.where(inside, a, 0) / fulls)  # in Schmidt normalization from here on
            return out

        tol = 1e-13 * top + 1e-11
        for x in list(g.uniform(-1, 1, count)) + [0.0, 1.0, -1.0, float(np.cos(1e-3))]:
            p, d, dd = tables(x)
            q, e, f = tables(-x)
            sign = (-1.0) ** (n - m)
            c.close(q, sign * p, f"parity of {kind} functions (degree up to {top}) at {x}", rtol=0, atol=tol)
            c.close(e, -sign * d, f"parity of {kind} derivatives (degree up to {top}) at {x}", rtol=0, atol=tol * (top + 1))
            c.close((p ** 2).sum(axis=1), np.ones(top + 1), f"sum of squares of {kind} functions at {x}", rtol=0, atol=tol * 10)
            # the same with the derivatives: sum of P P' vanishes, sum of P'^2 is n (n + 1) / 2
            c.close((p * d).sum(axis=1) / (n[:, 0] + 1), np.zeros(top + 1), f"functions times derivatives ({kind}) at {x}", rtol=0, atol=tol * 10)
            c.close((d ** 2).sum(axis=1) / (n[:, 0] + 1) ** 2, n[:, 0] / (n[:, 0] + 1) / 2, f"sum of squares of {kind} derivatives at {x}", rtol=0, atol=tol * 10)
            u = np.sqrt((1 - x) * (1 + x))
            # recursion over the degree
            lhs = np.sqrt((n + m) * np.maximum(n - m, 0))[2:] * p[2:]
            rhs = ((2 * n - 1)[2:] * x * p[1:-1]) - np.sqrt(np.maximum((n + m - 1) * (n - m - 1), 0))[2:] * p[:-2]
            keep = (m <= n - 1)[2:]
            c.close(np.where(keep, lhs / n[2:], 0), np.where(keep, rhs / n[2:], 0), f"recursion over the degree of {kind} functions at {x}", rtol=0, atol=tol)
            if u > 0.05:
                c.close((u * dd + x * d + (u * n * (n + 1) - m ** 2 / u) * p) / (n + 1) ** 2, np.zeros(p.shape), f"Legendre's equation for {kind} functions at {x}", rtol=0, atol=tol * 10)
            # addition theorem with a second direction
            y, lon = float(g.uniform(-1, 1)), float(g.uniform(0, 7))
            py = tables(y)[0]
            cosine = np.longdouble(x) * y + np.sqrt((1 - np.longdouble(x) ** 2) * (1 - np.longdouble(y) ** 2)) * np.cos(np.longdouble(lon))
            pol = [np.longdouble(1), cosine]
            for k in range(1, top):
                pol.append(((2 * k + 1) * cosine * pol[k] - k * pol[k - 1]) / np.longdouble(k + 1))
            c.close((p * py * np.cos(m * lon)).sum(axis=1), np.array(pol[:top + 1], dtype=float), f"addition theorem of {kind} functions at {x}, {y}", rtol=0, atol=tol * 10)
            c.validated(1, "identities", dict(kind=kind, top=top, x=x))
    return part


def far(top, picks):
    """Single functions of high degree in exact arithmetic."""
    def part(c):
        g = rng(1002)
        for a, s in ((1, 2), (-3, 2), (0, 0), (7, 3), (63, 6)):
            x = a / 2 ** s
            p, _, _ = compute(c, "schmidt", x, top, g)
            f, _, _ = compute(c, "full", x, top, g)
            for _ in range(picks):
                n = int(g.integers(14, top + 1)) if g.integers(3) else top - int(g.integers(2))
                m = int(g.choice([0, 1, 2, n // 2, n - 1, n, int(g.integers(0, n + 1))]))
                want = lc.single(n, m, a, s)
                c.close(p[n, m], want, f"Schmidt function of degree {n} and order {m} at {x}", rtol=0, atol=1e-13 * n + 1e-12)
                c.close(f[n, m], want * np.sqrt(2 * n + 1), f"full function of degree {n} and order {m} at {x}", rtol=0, atol=(1e-13 * n + 1e-12) * np.sqrt(2 * n + 1))
                c.validated(1, "high degree")
    return part


def check(c):
    cases = c.tlc("Legendre", constants=dict(MaxDegree=7), invariants=INVARIANTS).cases
    todo = [exact(k, cases) for k in ("plain", "schmidt", "full")]
    todo += [identities(k, t, n, 1010 + i) for i, (k, t, n) in enumerate([("schmidt", 40, 12), ("full", 40, 12), ("schmidt", 1000, 4), ("full", 1000, 4)] +
                                                                        ([("schmidt", 2800, 8), ("full", 2800, 8)] if THOROUGH else []))]
    todo.append(far(2800 if THOROUGH else 1200, 12 if THOROUGH else 6))
    c.parts(*todo)
    for kind in ("plain", "schmidt", "full"):
        c.require(kind, 30)
    c.require("identities", 30)
    c.require("high degree", 20)
