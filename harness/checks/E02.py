"""Gravity of ellipsoids: bodies of EllipsoidBody.tla in all their descriptions."""
import warnings

import numpy as np

import bulk
from scipy.constants import G

import ellcommon as el
from vlib import THOROUGH, rng

SCALES = [1.0, 100.0, 1e-2]


def bodies(c, tensors="{<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>}", steps=1):
    r = c.tlc("EllipsoidBody", constants=dict(Lengths="{<<3, 2, 1>>, <<2, 2, 1>>, <<3, 1, 1>>, <<2, 2, 2>>, <<9, 5, 1>>, <<40, 39, 1>>, <<30, 2, 1>>}", Tensors=tensors, MaxSteps=steps),
              invariants=["Proper", "Emit"], properties=["SameBody"])
    terms = [k for k in r.cases if k.get("kind") == "def"][0]
    groups = {}
    for k in r.cases:
        if "e" in k:
            groups.setdefault(str((k["shape"], k["chi"])), {})[str((k["e"], k["m"], k["x"]))] = k
    # bodies with the same shape in space come from the same start
    return terms, [list(v.values()) for v in groups.values()]


def check_bodies(c, hm, terms, groups, salt):
    g = rng(salt)
    for n, ks in enumerate(groups):
        base = el.random_rotation(g) if n % 3 else np.eye(3)
        scale = SCALES[n % 3]
        center = g.normal(size=3) * scale * 3 if n % 4 else np.zeros(3)
        rho = float(g.choice([2670.0, -300.0, 1.0]))
        first = ks[0]
        rot0, axes0 = base @ np.array(first["m"], dtype=float), np.array(first["e"]) * scale
        pts = el.sample_points(g, axes0, rot0, center, 24)
        want, size, inside = el.gravity(terms, axes0, rot0, center, rho, pts, G)
        flip = int(g.integers(0, 3))
        for j, k in enumerate(ks if THOROUGH else [ks[i] for i in g.permutation(len(ks))[:14]]):
            rot, axes = base @ np.array(k["m"], dtype=float), np.array(k["e"]) * scale
            yaw, pitch, roll = el.euler(rot)
            if j % 3 == flip:  # the same angles written with full turns
                yaw, roll = yaw + 360, roll - 360
            body = hm.Ellipsoid(*(float(q) if j % 2 or scale != 1 else int(q) for q in axes), yaw=yaw, pitch=pitch, roll=roll, center=tuple(center), density=rho)
            coords = tuple(pts) if j % 2 else tuple(q.reshape(4, 6) for q in pts)
            got = c.call("ellipsoid_gravity", hm.ellipsoid_gravity, coords, body if j % 3 else [body])
            if got is None:
                continue
            for name, a, b in zip(("g_e", "g_n", "g_z"), got, want):
                c.close(np.asarray(a), b.reshape(coords[0].shape), f"{name} of the ellipsoid {axes.tolist()} with angles {(yaw, pitch, roll)}", rtol=1.0, scale=(size * (2e-9 + el.blur(axes0, el.local(pts, center, rot0)))).reshape(coords[0].shape) + 1e-300,
                        atol=float(size.max()) * 1e-13, points=pts, center=center)
            c.validated(1, "description", dict(axes=axes, angles=(yaw, pitch, roll), center=center))
        c.validated(1, "inside" if inside.any() else "outside")


def check_shapes(c, hm, terms, salt):
    """Real axes: nearly equal, very different, any angles; continuity across the surface; sums."""
    g = rng(salt)
    for n in range(400 if THOROUGH else 80):
        kind = n % 8
        a = g.uniform(0.5, 50)
        if kind == 0:
            axes = np.array([a, a * g.uniform(0.1, 1), a * g.uniform(0.1, 1)])
        elif kind == 1:
            axes = np.array([a, a, a]) * (1 + np.array([0, 1, -1]) * 10 ** g.uniform(-4, -2))
        elif kind == 2:
            axes = np.array([a, a, a * g.uniform(0.2, 3)]) * (1 + np.array([0, 1, 0]) * 10 ** g.uniform(-9, -2))
        elif kind == 3:
            axes = np.array([a, a, a]) * (1 + np.array([0, 1, -1]) * 10 ** g.uniform(-9, -6))
        elif kind == 4:
            axes = np.array([a, a / g.uniform(50, 500), a / g.uniform(50, 500)])
        elif kind == 5:
            axes = np.array([a, a * g.uniform(0.5, 1), a / 300])
        elif kind == 7:  # needles and plates: axes that differ little in units of the longest one
            short = a / 10 ** g.uniform(3, 5.5)
            axes = np.array([a, short, short * g.uniform(0.3, 0.97)]) if n % 16 < 12 else np.array([a, a * g.uniform(0.3, 1), short])
        else:
            axes = np.array([a, a, a * 10 ** g.uniform(-2, 2)])
        axes = axes[g.permutation(3)]
        s = np.sort(axes)
        near = [abs(s[1] - s[0]) / s[1], abs(s[2] - s[1]) / s[2]]
        # within the tolerance of the code (1e-5) semiaxes are taken as equal
        close_ = any(0 < q < 1.2e-5 for q in near)
        rot = el.matrix(*(g.uniform(-400, 400, 3) if n % 2 else g.choice([0.0, 90.0, -90.0, 180.0, 45.0], 3)))
        yaw, pitch, roll = el.euler(rot)
        center = g.normal(size=3) * a * 5
        rho = float(g.uniform(-1000, 3000))
        pts = el.sample_points(g, axes, rot, center, 30)
        want, size, inside = el.gravity(terms, axes, rot, center, rho, pts, G)
        body = hm.Ellipsoid(*axes, yaw=yaw, pitch=pitch, roll=roll, center=tuple(center), density=rho)
        got = c.call(f"gravity of {axes}", hm.ellipsoid_gravity, tuple(pts), body)
        if got is None:
            continue
        got = np.array(got)
        gap = min([q for q in near if q > 1.2e-5] + [1.0])
        tol = 1e-4 if close_ else max(1e-8, 1e-12 / gap)
        # cancellation in the closed form far from slender or flat bodies is not judged more tightly than this
        x = np.asarray(el.local(pts, center, rot), dtype=float)
        lost = el.blur(axes, x)
        # rounding errors of the coordinates themselves, that only matter for very thin bodies
        grain = np.spacing(np.abs(pts).max() + np.abs(center).max()) / axes.min()
        edge = np.abs(np.sqrt((x ** 2 / axes[:, None] ** 2).sum(axis=0)) - 1)
        use = (lost < 1e-2) & (edge > 1e3 * grain)
        c.close(got[:, use], want[:, use], f"gravity of the ellipsoid {axes.tolist()}", rtol=1.0, scale=np.tile(size * (max(tol, 1e-6) + lost + 1e2 * grain), (3, 1))[:, use], atol=float(size.max()) * 1e-11,
                pts=pts, center=center, angles=(yaw, pitch, roll))
        c.counts["skipped points"] = c.counts.get("skipped points", 0) + int((~use).sum())
        if kind == 7:
            c.validated(int((use & inside).sum()), "slender")
        c.validated(1, "close axes" if close_ else "shape", dict(axes=axes))
        if kind == 7:
            continue
        # across the surface
        u = g.normal(size=(3, 6))
        u /= np.sqrt((u ** 2).sum(axis=0))
        if n % 2:
            u[:, 0] = [0, 0, 1]
            u[:, 1] = [1, 0, 0]
        sur = [rot @ (u * axes[:, None] * q) + center[:, None] for q in (1 - 1e-9, 1 + 1e-9)]
        io = [c.call("gravity at the surface", hm.ellipsoid_gravity, tuple(q), body) for q in sur]
        if None not in io:
            top = np.sqrt((np.array(io[0]) ** 2).sum(axis=0)).max()
            lost = el.blur(axes, np.asarray(el.local(sur[1], center, rot), dtype=float)).max() + 1e2 * grain
            if lost < 1e-2:
                c.close(np.array(io[1]), np.array(io[0]), f"gravity across the surface of {axes.tolist()}", rtol=lost + (1e-5 if not close_ else 1e-4), scale=top)
            c.validated(1, "surface")


def check_far(c, hm, terms, salt):
    """Points up to a million radii away from bodies of any shape."""
    g = rng(salt)
    for k, axes, rot, angles, center, pts, lost in el.far_cases(g, 400 if THOROUGH else 120):
        want, size, _ = el.gravity(terms, axes, rot, center, 1000.0, pts, G)
        got = c.call(f"gravity of {axes} far away", hm.ellipsoid_gravity, tuple(pts), hm.Ellipsoid(*axes, *angles, center=tuple(center), density=1000.0))
        use = lost < 1e-2
        if got is not None and use.any():
            c.close(np.array(got)[:, use], want[:, use], f"gravity of the ellipsoid {axes.tolist()} far away", rtol=1.0, scale=np.tile(size * (1e-6 + lost), (3, 1))[:, use],
                    pts=pts, center=center, angles=angles)
            c.validated(int(use.sum()), "far")


def check_sums(c, hm, terms, salt):
    from harmonica.errors import NoPhysicalPropertyWarning

    g = rng(salt)
    for n in range(60 if THOROUGH else 16):
        m = int(g.integers(0, 5))
        data, objs = [], []
        for _ in range(m):
            axes, ang, cen = g.uniform(1, 10, 3), g.uniform(-180, 180, 3), g.normal(size=3) * 20
            rho = None if g.random() < 0.3 else float(g.uniform(-500, 3000))
            data.append((axes, ang, cen, rho))
            objs.append(hm.Ellipsoid(*axes, *ang, center=tuple(cen), density=rho))
        if m and n % 2:  # a body that is in the list twice counts twice
            for _ in range(2):
                j = int(g.integers(0, m))
                data.append(data[j])
                objs.append(objs[j] if g.random() < 0.6 else hm.Ellipsoid(*data[j][0], *data[j][1], center=tuple(data[j][2]), density=data[j][3]))
            m += 2
            c.validated(1, "repeated")
        shape = [(), (5,), (2, 3), (1, 1), (4, 1)][n % 5]
        pts = [g.normal(size=shape) * 25 for _ in range(3)]
        if n % 5 == 2:
            pts[2] = np.float64(3.0)  # broadcast
        full = np.broadcast_arrays(*pts)
        flat = np.array([np.asarray(q, dtype=float).ravel() for q in full])
        want, size = np.zeros((3, flat.shape[1])), np.zeros(flat.shape[1])
        for axes, ang, cen, rho in data:
            if rho is not None:
                v, s, _ = el.gravity(terms, axes, el.matrix(*ang), cen, rho, flat, G)
                want, size = want + v, size + s
        keep = [np.array(q, copy=True) for q in pts]
        arg = [objs, tuple(objs), iter(objs)][n % 3]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = hm.ellipsoid_gravity(tuple(pts), arg)
        warned = sum(issubclass(q.category, NoPhysicalPropertyWarning) for q in w)
        c.equal(warned > 0, any(d[3] is None for d in data), f"warning about ellipsoids without density ({[d[3] for d in data]})")
        for a, b in zip(got, want):
            c.close(np.asarray(a), b.reshape(full[0].shape), f"gravity of {m} ellipsoids at points of shape {shape}", rtol=1e-7, scale=size.reshape(full[0].shape) + 1e-300)
        c.true(all(np.array_equal(p, q) for p, q in zip(keep, pts)), "ellipsoid_gravity modified the coordinates")
        c.validated(1, "sum")
    # integer coordinates
    body = hm.Ellipsoid(3, 2, 1, yaw=20, density=1000)
    pts = g.integers(-9, 10, (3, 12))
    want, size, _ = el.gravity(terms, [3, 2, 1], el.matrix(20, 0, 0), [0, 0, 0], 1000, pts, G)
    got = c.call("integer coordinates", hm.ellipsoid_gravity, tuple(pts), body)
    if got is not None:
        c.close(np.array(got), want, "gravity at integer coordinates", rtol=1e-8, scale=np.tile(size, (3, 1)) + 1e-300)


def check_many(c, hm, plans):
    """Many points and many bodies against pieces."""
    g = rng(907)
    n = 40009
    pts = tuple(g.normal(size=n) * 30 for _ in range(3))
    for axes in ((9.0, 6.0, 4.0), (8.0, 8.0, 3.0), (3.0, 9.0, 3.0), (7.0, 7.0, 7.0)):
        body = hm.Ellipsoid(*axes, *g.uniform(-180, 180, 3), center=tuple(g.normal(size=3) * 10), density=1e3)
        bulk.mapped(c, f"gravity of the ellipsoid {axes}", lambda p, body=body: hm.ellipsoid_gravity(p, body), pts, plans[n], rtol=1e-9)
    n = 503
    many = [hm.Ellipsoid(*g.uniform(1, 9, 3), *g.uniform(-180, 180, 3), center=tuple(g.normal(size=3) * 50), density=float(g.normal() * 1e3)) for _ in range(n)]
    bulk.summed(c, "gravity of ellipsoids", lambda q: hm.ellipsoid_gravity(tuple(p[:30] for p in pts), list(q[0])), (many,), plans[n])


def check(c):
    import harmonica as hm

    terms, groups = bodies(c)
    half = len(groups) // 2 or 1
    plans = bulk.plans(c, [503, 40009], pieces=(97, 997, 4099))
    c.parts(lambda s: check_many(s, hm, plans), lambda s: check_bodies(s, hm, terms, groups[:half], 901), lambda s: check_bodies(s, hm, terms, groups[half:], 902),
            lambda s: check_bodies(s, hm, terms, groups, 903), lambda s: check_shapes(s, hm, terms, 904), lambda s: check_shapes(s, hm, terms, 905), lambda s: check_sums(s, hm, terms, 906),
            lambda s: check_far(s, hm, terms, 908))
    c.require("far", 500)
    c.require("description", 60)
    c.require("shape", 60)
    c.require("close axes", 15)
    c.require("surface", 60)
    c.require("slender", 60)
    c.require("sum", 10)
    c.require("repeated", 1)
    c.require("bulk", 5)
