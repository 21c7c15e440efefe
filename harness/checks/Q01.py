"""Placement of equivalent sources: histories of Placement.tla."""
import warnings

import numpy as np

from vlib import THOROUGH, rng, tla_value


def datasets(g, n):
    out = []
    for k in range(n):
        m = int(g.integers(3, 13)) if k else 8
        w = int(g.integers(5, 30))
        pts = [[int(v) for v in (g.integers(0, w), g.integers(0, w), g.integers(-6, 9))] for _ in range(m)]
        if k % 3 == 1:
            pts.append([*pts[0][:2], pts[0][2] + 1])
        if k == 2:  # regular grid
            pts = [[3 * i, 5 * j, (i * j) % 4] for j in range(3) for i in range(4)]
        if len({tuple(q[:2]) for q in pts}) < 3 or len({q[0] for q in pts}) < 2 or len({q[1] for q in pts}) < 2:
            pts += [[0, 0, 1], [w, 3, 0], [2, w, 2]]
        out.append(pts)
    return out


def sort(points):
    a = np.array([np.asarray(q, dtype=float).ravel() for q in points]).T
    return a[np.lexsort(a.T[::-1])]


def expect_points(e, sets, customs, scale, off, rel):
    """Expected sources (n, 3) sorted, and depth."""
    if e["kind"] == "custom":
        return np.array(customs[e["points"] - 1], dtype=float), None
    pts = []
    for loc, times in e["above"]:
        pts += [np.array(loc) / 2 * scale + off] * times
    pts = np.array(pts)
    depth = e["depth"] * 1.0
    if e["depth"] == 0:
        num = sum(n for _, _, n in e["near"])
        depth = 4.5 * sum(np.sqrt(float(d)) / 2 * n for _, d, n in e["near"]) / num * scale
    pts[:, 2] -= depth
    return pts, depth


def params(p, cls, customs, spherical, g):
    kw = dict(damping=None, parallel=False)
    pts = None if p["points"] == 0 else tuple(np.array(q, dtype=float) for q in zip(*customs[p["points"] - 1]))
    kw["points"] = pts
    if spherical:
        kw["relative_depth"] = p["depth"]
        return kw
    kw["depth"] = "default" if p["depth"] == 0 else p["depth"]
    n, e = p["block"]
    kw["block_size"] = None if (n, e) == (0, 0) else ((n, e) if n != e else n)
    return kw


def scaled(kw, scale):
    kw = dict(kw)
    if isinstance(kw.get("block_size"), tuple):
        kw["block_size"] = tuple(q * scale for q in kw["block_size"])
    elif kw.get("block_size") is not None:
        kw["block_size"] = kw["block_size"] * scale
    return kw


def same_params(a, b):
    return a.keys() == b.keys() and all(type(a[k]) is type(b[k]) and (a[k] is b[k] or np.array_equal(np.asarray(a[k], dtype=object if isinstance(a[k], str) else None), np.asarray(b[k], dtype=object if isinstance(b[k], str) else None)))
                                        for k in a)


def replay(c, hm, case, sets, customs, which, g, n):
    from sklearn.base import clone

    spherical = which == "sph"
    cls = {"cartesian": hm.EquivalentSources, "gb": hm.EquivalentSourcesGB, "sph": hm.EquivalentSourcesSph}[which]
    scale, off = [(1.0, np.zeros(3)), (250.0, np.array([-3e4, 7e6, 120.0])), (0.125, np.array([-2.0, 1.0, 0.0]))][n % 3]
    if spherical:
        off = np.array([-3.0, 1.0, 5000.0]) if n % 2 else np.array([40.0, -30.0, 6371.0])
        scale = 1.0
    dtype = "float32" if n % 7 == 3 and not spherical and n % 3 != 1 else "float64"
    cur = dict(case["trail"][0][1])
    kw = scaled(params(cur, cls, customs, spherical, g), scale)
    if not spherical:
        kw["dtype"] = dtype
    eq = cls(**kw)
    last = None
    for op in case["trail"][1:]:
        if op[0] == "fit":
            d = np.array(sets[op[1] - 1], dtype=float) * scale + off
            shape = (-1,) if len(d) % 2 or n % 2 else (2, -1)
            if n % 5 == 4 and scale == 1.0:
                d = d.astype(int)
            coords = tuple(q.reshape(shape) for q in np.ascontiguousarray(d.T))
            if n % 4 == 1:
                coords = (*coords, np.zeros(coords[0].shape))  # extra coordinates are ignored
            data = np.arange(1.0, len(d) + 1).reshape(shape)
            keep = [q.copy() for q in (*coords, data)]
            before = eq.get_params()
            last = c.call(f"fit of {which} after {case['trail']}", eq.fit, coords, data)
            if last is None:
                return
            c.true(same_params(before, eq.get_params()), f"fit changed the parameters {before} to {eq.get_params()} ({which})")
            c.true(all(np.array_equal(p, q) for p, q in zip(keep, (*coords, data))), f"fit modified the data ({which})")
            reg = [d[:, 0].min(), d[:, 0].max(), d[:, 1].min(), d[:, 1].max()]
            c.close(np.array(eq.region_, dtype=float), reg, f"region_ of the data ({which})", rtol=1e-6)
            # arrays of the caller can change afterwards
            if n % 2:
                for q in (*coords, data):
                    q += 17
        elif op[0] == "clone":
            eq = clone(eq)
        else:
            cur[op[0]] = op[1]
            new = scaled(params(cur, cls, customs, spherical, g), scale)
            eq.set_params(**{k: v for k, v in new.items() if k in ("points", "depth", "block_size", "relative_depth")})
    e = case["expect"]
    want, depth = expect_points(e, sets, customs, scale, off, None)
    what = f"{which} after {case['trail']} (scale {scale}, offset {off.tolist()}, {dtype})"
    got = [np.asarray(q) for q in eq.points_]
    c.equal([q.shape for q in got], [(len(want),)] * 3, f"{what}: shapes of points_")
    tol = 1e-10 if dtype == "float64" else 2e-6
    size = np.abs(want).max(axis=0) + scale
    for a in range(3):
        # by location and also coordinate by coordinate
        c.close(sort(got)[:, a], sort(want.T)[:, a], f"{what}: sources", rtol=0, atol=float(size[a]) * tol, scale=None)
    if e["kind"] == "custom":
        c.close(np.array(got), want.T, f"{what}: custom sources in their order", rtol=0, atol=float(size.max()) * tol)
    if not spherical:
        if depth is None:
            c.true(eq.depth_ is None, f"{what}: depth_ is {eq.depth_!r}, specified None with custom sources")
        else:
            c.close(eq.depth_, depth, f"{what}: depth_", rtol=1e-10 if dtype == "float64" else 1e-5)
        c.equal(np.asarray(got[0]).dtype, np.dtype(dtype), f"{what}: type of points_")
    c.equal(np.shape(eq.coefs_), (len(want),), f"{what}: one coefficient per source")
    c.validated(1, which, dict(trail=case["trail"]))
    c.validated(0, which)
    k = e["kind"] if e["kind"] == "custom" else ("blocks" if e.get("block", [0, 0]) != [0, 0] else "data") + (" default" if e["depth"] == 0 else "")
    c.counts[k] = c.counts.get(k, 0) + 1


def check_rules(c, hm):
    """Depths that are not allowed."""
    from sklearn.base import clone

    for cls in (hm.EquivalentSources, hm.EquivalentSourcesGB):
        for bad in (0, 0.0, -0.0, np.float64(0), "Default", "defualt", "", "4.5"):
            c.raises(f"{cls.__name__}(depth={bad!r})", ValueError, lambda cls=cls, bad=bad: cls(depth=bad))
        for good in ("default", 1, -3.0, 1e-9, np.float32(2)):
            est = c.call(f"{cls.__name__}(depth={good!r})", cls, depth=good)
            if est is not None:
                c.equal(clone(est).get_params()["depth"], good, f"depth of a clone of {cls.__name__}(depth={good!r})")
        c.validated(1, "rules")
    for bad in ("Default", "big", ""):
        c.raises(f"EquivalentSourcesGB(window_size={bad!r})", ValueError, lambda bad=bad: hm.EquivalentSourcesGB(window_size=bad))


def check(c):
    import harmonica as hm

    warnings.simplefilter("ignore")
    g = rng(931)
    sets = datasets(g, 9 if THOROUGH else 6)
    customs = [[[1.5, 2.0, -7.0], [4.0, 9.0, -3.0], [1.5, 2.0, -8.0]], [[float(v) for v in g.normal(size=3) * 10] for _ in range(5)]]
    names = "<<" + ", ".join("<<" + ", ".join(tla_value(p) for p in d) + ">>" for d in sets) + ">>"

    def spec(ops, emitting, depths, blocks, **kw):
        r = c.tlc("Placement", constants=dict(Sets=names, Depths=depths, Blocks=blocks, Customs="<<1, 2>>", MaxOps=ops, Emitting=emitting), invariants=["Sound", "Emit"], properties=["KeepsFit"], **kw)
        return r.cases

    depths, blocks = "{0, 3, 11, -2}", "{<<0, 0>>, <<4, 4>>, <<7, 3>>, <<2, 6>>, <<50, 50>>}"
    short = spec(2, 1, depths, blocks)
    long_ = spec(9, 5, depths, blocks, simulate=40 if THOROUGH else 12, depth=10)
    sph = spec(2, 1, "{500, 3, -2}", "{<<0, 0>>}")
    pick = [short[i] for i in g.permutation(len(short))[: 6000 if THOROUGH else 420]]
    rare = [k for k in short if k["expect"].get("block", [0, 0]) != [0, 0]]
    pick += [rare[i] for i in g.permutation(len(rare))[:80]]
    rare = [k for k in rare if k["expect"]["depth"] == 0]
    pick += [rare[i] for i in g.permutation(len(rare))[:40]]
    picks = [sph[i] for i in g.permutation(len(sph))[: 1000 if THOROUGH else 120]]
    runs = [long_[i] for i in g.permutation(len(long_))[: 2000 if THOROUGH else 160]]

    def part(ks, which, salt):
        return lambda s: [replay(s, hm, k, sets, customs, which, rng(salt), n) for n, k in enumerate(ks)]

    h, r = len(pick) // 2, len(runs) // 2
    c.parts(part(pick[:h], "cartesian", 1), part(pick[h:], "gb", 2), part(runs[:r], "cartesian", 3), part(runs[r:], "gb", 4), part(picks, "sph", 5), lambda s: check_rules(s, hm))
    for k, n in (("cartesian", 200), ("gb", 200), ("sph", 80), ("custom", 50), ("blocks", 20), ("blocks default", 10), ("data", 20), ("data default", 10), ("rules", 2)):
        c.require(k, n)
