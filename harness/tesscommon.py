"""Tesseroids: geometry decisions and quadrature evaluated from the terms of Discretize.tla."""
import numpy as np

from vlib import ev

L = np.longdouble
NODES, WEIGHTS = np.polynomial.legendre.leggauss(2)


def boxes(tess, nodes):
    """Bounds (6 arrays) of dyadic nodes of a tesseroid."""
    out = []
    for a in range(3):
        lo, hi = L(tess[2 * a]), L(tess[2 * a + 1])
        lev, idx = nodes[:, a, 0], nodes[:, a, 1].astype(L)
        step = (hi - lo) / (L(2) ** lev)
        out += [lo + step * idx, lo + step * (idx + 1)]
    return out


def tree(terms, point, tess, ratio, radial, limit=20000):
    """Sweep the dyadic tree: {code: nodes}, leaves in code 0, smallest relative margin of any decision; None over the limit."""
    pending = np.zeros((1, 3, 2), dtype=np.int64)
    codes, margin, done = {k: [] for k in range(8)}, np.inf, 0
    lon, lat, r = (L(q) for q in point)
    while len(pending):
        w, e, s, n, b, t = boxes(tess, pending)
        env = dict(w=w, e=e, s=s, n=n, b=b, t=t, lon=lon, lat=lat, r=r)
        d = ev(terms["distance"], env)
        code = np.zeros(len(pending), dtype=int)
        for a, name in enumerate(("lon", "lat", "rad")):
            size = ratio * ev(terms[name], env)
            if a == 2 and not radial:
                continue
            with np.errstate(all="ignore"):
                rel = np.abs(d - size) / np.maximum(np.abs(size), L(1e-300))
            margin = min(margin, float(np.min(rel)))
            big = d < size
            if name == "lon":
                wide = ev(terms["wide"], env)
                big = big | (wide > 0)
                margin = min([margin] + [float(x) for x in np.abs(wide) if 0 < x < 1e-3])
            code += np.where(big, 1 << a, 0)
        nxt = []
        for k in range(8):
            sel = pending[code == k]
            codes[k].append(sel)
            if k == 0:
                done += len(sel)
                continue
            kids = [sel]
            for a in range(3):
                if k >> a & 1:
                    out = []
                    for q in kids:
                        for h in (0, 1):
                            m = q.copy()
                            m[:, a, 0] += 1
                            m[:, a, 1] = 2 * m[:, a, 1] + h
                            out.append(m)
                    kids = out
            nxt += kids
        pending = np.concatenate(nxt) if nxt else np.zeros((0, 3, 2), dtype=np.int64)
        if done + len(pending) > limit or (len(pending) and pending[:, :, 0].max() > 40):
            return None
    return {k: np.concatenate(v) for k, v in codes.items()}, margin


def quadrature(kernel, point, tess, leaves, density, G, order=2):
    """Sum over the leaves of the Gauss-Legendre quadrature of density(r) times the kernel term."""
    x, wts = np.polynomial.legendre.leggauss(order)
    w, e, s, n, b, t = boxes(tess, leaves)
    lon, lat, r = (L(q) for q in point)
    rad = L(np.pi) / 180
    total = L(0)
    for i in range(order):
        for j in range(order):
            for k in range(order):
                lonp = (e + w) / 2 + (e - w) / 2 * L(x[i])
                latp = (n + s) / 2 + (n - s) / 2 * L(x[j])
                rp = (t + b) / 2 + (t - b) / 2 * L(x[k])
                val = ev(kernel, dict(lon=lon, lat=lat, r=r, lonp=lonp, latp=latp, rp=rp, G=L(G)))
                total += (val * density(rp) * (e - w) * rad * (n - s) * rad * (t - b) / 8).sum() * L(wts[i] * wts[j] * wts[k])
    return float(total)


def dyadic(tess, pieces):
    """Nodes of the dyadic tree of ``tess`` for an array of pieces; None when some piece is not one of them."""
    nodes = np.zeros((len(pieces), 3, 2), dtype=np.int64)
    for a in range(3):
        lo, hi = tess[2 * a], tess[2 * a + 1]
        width = (pieces[:, 2 * a + 1] - pieces[:, 2 * a])
        if not (width > 0).all():
            return None
        lev = np.log2((hi - lo) / width)
        l = np.round(lev)
        if (np.abs(lev - l) > 1e-4).any() or (l < 0).any():
            return None
        step = (hi - lo) / 2.0 ** l
        pos = (pieces[:, 2 * a] - lo) / step
        i = np.round(pos)
        if (np.abs(pos - i) > 1e-3).any() or (i < 0).any() or (i >= 2.0 ** l).any():
            return None
        nodes[:, a, 0], nodes[:, a, 1] = l, i
    return nodes
