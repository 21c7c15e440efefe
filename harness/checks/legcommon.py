"""The table of Legendre.tla in exact arithmetic."""
from fractions import Fraction
from math import factorial, sqrt

import numpy as np


def up(p, before, d):
    """Up(p, before, d) of Legendre.tla."""
    at = lambda s, k: s[k] if 0 <= k < len(s) else 0
    out = []
    for k in range(d + 2):
        v = 2 * (2 * d + 1) * at(p, k - 1) - 4 * d * at(before, k)
        assert v % (d + 1) == 0
        out.append(v // (d + 1))
    return out


def diff(p):
    return [k * v for k, v in enumerate(p)][1:] or [0]


def table(top):
    """dict (n, m) -> integer coefficients of 2^n Q_n^m"""
    out, q, last = {}, [1], [0]
    for n in range(top + 1):
        r = q
        for m in range(n + 1):
            out[n, m] = r
            r = diff(r)
        q, last = up(q, last, n), q
    return out


def value(p, x):
    v = Fraction(0)
    for c in reversed(p):
        v = v * x + c
    return v


def squares(kind, n, m):
    """The square of the factor of a normalization."""
    if kind == "plain":
        return Fraction(1)
    s = Fraction((1 if m == 0 else 2) * factorial(n - m), factorial(n + m))
    return s if kind == "schmidt" else s * (2 * n + 1)


def root(f):
    """Square root of a non-negative rational, in double precision."""
    if f == 0:
        return 0.0
    # scale by an even power of two, to stay in range
    e = (f.numerator.bit_length() - f.denominator.bit_length()) // 2
    if e < -1060:
        return 0.0
    return float(np.ldexp(sqrt(f / Fraction(4) ** e if e >= 0 else f * Fraction(4) ** -e), e))


def functions(kind, q, n, m, x):
    """P, dP/dtheta and its derivative at x = cos(theta), exactly up to the square roots."""
    q1 = diff(q)
    q2 = diff(q1)
    s = Fraction(1, 2 ** n)
    v, v1, v2 = value(q, x) * s, value(q1, x) * s, value(q2, x) * s
    uu = 1 - x * x
    norm = squares(kind, n, m)

    def upow(k, part):  # part * u^k * sqrt(norm), with k >= -1 and a zero part where k < 0
        if part == 0:
            return 0.0
        r = part * part * norm * uu ** k if k >= 0 else (part * part * norm / uu)
        return root(r) * (1 if part > 0 else -1)

    p = upow(m, v)
    # -u dQ/dx u^m + m x u^(m - 1) Q
    d = upow(m + 1, -v1) + (upow(m - 1, m * x * v) if m else 0.0)
    # u^(m+2) Q'' - (2 m + 1) x u^m Q' - m u^m Q + m (m - 1) x^2 u^(m-2) Q
    dd = upow(m + 2, v2) + upow(m, -(2 * m + 1) * x * v1 - m * v) + (upow(m - 2, m * (m - 1) * x * x * v) if m > 1 else 0.0)
    return p, d, dd


def single(n, m, a, s):
    """Schmidt function of one degree and order at x = a / 2^s from the ratios of neighbouring coefficients (Ratio of Legendre.tla)."""
    c = factorial(2 * n) // (factorial(n) * factorial(n - m))  # leading coefficient, times 2^n
    coeffs = [c]
    for k in range((n - m) // 2):
        num = -c * (n - 2 * k - m) * (n - 2 * k - m - 1)
        den = 2 * (k + 1) * (2 * n - 2 * k - 1)
        assert num % den == 0
        c = num // den
        coeffs.append(c)
    acc = 0
    for j, c in enumerate(coeffs):  # Horner in x^2, scaled by 2^(2 s j)
        acc = acc * a * a + (c << (2 * s * j))
    odd = (n - m) % 2
    if odd:
        acc *= a
    shift = 2 * s * (len(coeffs) - 1) + (s if odd else 0) + n
    uu = Fraction(4 ** s - a * a, 4 ** s)
    r = Fraction(acc * acc, 4 ** shift) * uu ** m * squares("schmidt", n, m)
    return root(r) * (1 if acc > 0 else -1)
