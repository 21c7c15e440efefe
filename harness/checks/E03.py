"""Magnetic field of ellipsoids: bodies of EllipsoidBody.tla in all their descriptions."""
import warnings

import numpy as np

import bulk

import ellcommon as el
from checks.E02 import SCALES, bodies
from vlib import THOROUGH, rng

TENSORS = "{<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<3, 0, 0>>, <<0, 2, 0>>, <<0, 0, 1>>>>, <<<<4, 1, -1>>, <<1, 3, 2>>, <<-1, 2, 5>>>>}"


def field_close(c, got, want, scale, what, rtol, floor=0.0, **replay):
    got = np.array([np.asarray(q, dtype=float) for q in got])
    c.close(got, want.reshape(got.shape), what, rtol=rtol, scale=np.broadcast_to(scale, want.shape).reshape(got.shape) + 1e-300, atol=floor, **replay)


def kinds(n, chi, g, fac=1.0):
    """Physical properties of a case: what to give and what is meant."""
    rem = g.normal(size=3) * 10.0 ** g.integers(-2, 3)
    iso = np.array_equal(chi, np.eye(3) * chi[0, 0])
    given = float(chi[0, 0] * fac) if iso and n % 2 else chi * fac
    k = n % 3
    if k == 0:
        return given, None
    if k == 1:
        return given, rem
    return (None if n % 4 < 2 else given), rem


def check_bodies(c, hm, terms, groups, salt):
    g = rng(salt)
    for n, ks in enumerate(groups):
        base = el.random_rotation(g) if n % 3 else np.eye(3)
        scale = SCALES[n % 3]
        center = g.normal(size=3) * scale * 3 if n % 4 else np.zeros(3)
        fac = float(10.0 ** (g.uniform(-2, 1.5) if n % 3 else g.uniform(-7, -2)))
        b0 = g.normal(size=3) * 40000 if n % 5 else np.array([0.0, 0.0, -50000.0])
        first = ks[0]
        rot0, axes0, chi0 = base @ np.array(first["m"], dtype=float), np.array(first["e"]) * scale, np.array(first["x"], dtype=float)
        sus0, rem = kinds(n, chi0, g, fac)
        pts = el.sample_points(g, axes0, rot0, center, 24)
        # remanence is given in the geographic frame
        want, size, inside = el.magnetic(terms, axes0, rot0, center, sus0, rem, b0, pts)
        near = axes0.min() * 1e-300
        for j, k in enumerate(ks if THOROUGH else [ks[i] for i in g.permutation(len(ks))[:12]]):
            rot, axes = base @ np.array(k["m"], dtype=float), np.array(k["e"]) * scale
            chi = np.array(k["x"], dtype=float)
            sus = None if sus0 is None else (sus0 if np.isscalar(sus0) else chi * fac)
            yaw, pitch, roll = el.euler(rot)
            if j % 3 == 1:
                yaw, roll = yaw - 360, roll + 360
            body = hm.Ellipsoid(*(float(q) for q in axes), yaw=yaw, pitch=pitch, roll=roll, center=tuple(center), susceptibility=sus,
                                remanent_mag=None if rem is None else (rem if j % 2 else rem.tolist()))
            coords = tuple(pts) if j % 2 else tuple(q.reshape(2, 12) for q in pts)
            got = c.call("ellipsoid_magnetic", hm.ellipsoid_magnetic, coords, body if j % 3 else [body], b0 if j % 2 else tuple(b0))
            if got is None:
                continue
            c.true(all(np.asarray(q).shape == coords[0].shape for q in got), f"shapes {[np.asarray(q).shape for q in got]} for coordinates of shape {coords[0].shape}")
            field_close(c, got, want, size * (1 + 1e8 * el.blur(axes0, el.local(pts, center, rot0))), f"field of the ellipsoid {axes.tolist()} with angles {(yaw, pitch, roll)}, susceptibility {'none' if sus is None else np.asarray(sus).tolist()}, remanence {rem}",
                        1e-7, float(size.max()) * 1e-11, points=pts, center=center, inducing=b0)
            c.validated(1, "description", dict(axes=axes, angles=(yaw, pitch, roll), susceptibility=sus))
        c.validated(1, ("inside " if inside.any() else "outside ") + ("tensor" if sus0 is not None and not np.isscalar(sus0) and np.abs(chi0 - np.diag(np.diag(chi0))).max() > 0 else "isotropic or diagonal"))


def check_shapes(c, hm, terms, salt):
    g = rng(salt)
    for n in range(540 if THOROUGH else 90):
        kind = n % 9
        a = g.uniform(0.5, 50)
        axes = {0: lambda: np.array([a, a * g.uniform(0.1, 1), a * g.uniform(0.1, 1)]),
                1: lambda: np.array([a, a, a]) * (1 + np.array([0, 1, -1]) * 10 ** g.uniform(-3, -2)),
                2: lambda: np.array([a, a, a * g.uniform(0.2, 3)]) * (1 + np.array([0, 1, 0]) * 10 ** g.choice([-9, -7, -2.5])),
                3: lambda: np.array([a, a, a]) * (1 + np.array([0, 1, -1]) * 10 ** g.uniform(-9, -6)),
                4: lambda: np.array([a, a / g.uniform(20, 100), a / g.uniform(20, 100)]),
                5: lambda: np.array([a, a * g.uniform(0.5, 1), a / 100]),
                6: lambda: np.array([a, a, a * 10 ** g.uniform(-1.7, 1.7)]),
                7: lambda: np.array([a, 1, 1]) * [1, *[a / 10 ** g.uniform(1, 2)] * 2],
                8: lambda: np.array([a, a, a / 10 ** g.uniform(1, 2)])}[kind]()
        axes = axes[g.permutation(3)]
        s = np.sort(axes)
        near = [abs(s[1] - s[0]) / s[1], abs(s[2] - s[1]) / s[2]]
        close_ = any(0 < q < 1.2e-5 for q in near)
        rot = el.matrix(*(g.uniform(-400, 400, 3) if n % 2 else g.choice([0.0, 90.0, -90.0, 180.0, 45.0], 3)))
        yaw, pitch, roll = el.euler(rot)
        center = g.normal(size=3) * a * 5
        q, _ = np.linalg.qr(g.normal(size=(3, 3)))
        strong = kind > 6 or n % 4 == 3  # slender bodies are only told apart by strong susceptibilities
        chi = q @ np.diag(10.0 ** g.uniform(-2, 1, 3) * (300 if strong else 1)) @ q.T
        chi = (chi + chi.T) / 2
        sus = [None, float(10.0 ** (g.uniform(1, 4) if strong else g.uniform(-3, 1))), chi, np.diag(np.diag(chi)), -0.02][n % 5]
        rem = g.normal(size=3) * 3 if n % 5 == 0 or n % 2 else None
        b0 = g.normal(size=3) * 30000
        pts = el.sample_points(g, axes, rot, center, 30)
        want, size, inside = el.magnetic(terms, axes, rot, center, sus, rem, b0, pts)
        body = hm.Ellipsoid(*axes, yaw=yaw, pitch=pitch, roll=roll, center=tuple(center), susceptibility=sus, remanent_mag=rem)
        got = c.call(f"field of {axes}", hm.ellipsoid_magnetic, tuple(pts), body, tuple(b0))
        if got is None:
            continue
        field_close(c, got, want, size * (1 + 1e6 * el.blur(axes, el.local(pts, center, rot))), f"field of the ellipsoid {axes.tolist()}, susceptibility {sus}, remanence {rem}", 1e-3 if close_ else 1e-5, float(size.max()) * (1e-6 if close_ else 1e-9),
                    pts=pts, center=center, angles=(yaw, pitch, roll), inducing=b0)
        c.validated(1, "close axes" if close_ else "shape", dict(axes=axes))


def check_far(c, hm, terms, salt):
    """Points up to a million radii away from bodies of any shape."""
    g = rng(salt)
    for k, axes, rot, angles, center, pts, lost in el.far_cases(g, 400 if THOROUGH else 120):
        sus, rem, b0 = [None, 0.3, 5.0][k % 3], g.normal(size=3) * 3, g.normal(size=3) * 30000
        want, size, _ = el.magnetic(terms, axes, rot, center, sus, rem, b0, pts)
        got = c.call(f"field of {axes} far away", hm.ellipsoid_magnetic, tuple(pts), hm.Ellipsoid(*axes, *angles, center=tuple(center), susceptibility=sus, remanent_mag=rem), tuple(b0))
        use = lost < 1e-2
        if got is not None and use.any():
            c.close(np.array(got)[:, use], want[:, use], f"field of the ellipsoid {axes.tolist()} far away, susceptibility {sus}", rtol=1.0, scale=np.tile(size * (1e-5 + lost), (3, 1))[:, use],
                    pts=pts, center=center, angles=angles, remanence=rem, inducing=b0)
            c.validated(int(use.sum()), "far")


def check_linear(c, hm, salt):
    """Zero fields, linearity in remanence and inducing field, whatever the body."""
    g = rng(salt)
    for n in range(120 if THOROUGH else 40):
        axes = g.uniform(1, 9, 3)
        if n % 4 == 0:
            axes[1] = axes[0]
        if n % 8 == 0:
            axes[2] = axes[0]
        ang, cen = g.uniform(-180, 180, 3), g.normal(size=3) * 9
        q = g.normal(size=(3, 3))
        sus = [None, 0.7, q @ q.T][n % 3]
        pts = tuple(el.sample_points(g, axes, el.matrix(*ang), cen, 16))

        def field(rem, b0):
            body = hm.Ellipsoid(*axes, *ang, center=tuple(cen), susceptibility=sus, remanent_mag=rem)
            return np.array(hm.ellipsoid_magnetic(pts, body, b0))

        r1, r2, f1, f2 = (g.normal(size=3) for _ in range(4))
        f1, f2 = f1 * 3e4, f2 * 3e4
        al, be = (float(v) for v in g.normal(size=2) * 2)
        zero = np.zeros(3)
        parts_ = [field(r1, zero), field(r2, zero), field(zero, f1), field(zero, f2)]
        size = sum(np.sqrt((p ** 2).sum(axis=0)) for p in parts_)
        both = field(al * r1 + be * r2, tuple(al * f1 + be * f2))
        c.close(both, al * (parts_[0] + parts_[2]) + be * (parts_[1] + parts_[3]), f"field of a combination of remanences and inducing fields (susceptibility {sus})", rtol=1e-9, scale=(abs(al) + abs(be)) * size)
        c.close(field(zero, zero), np.zeros((3, 16)), "field without magnetization", rtol=0, atol=1e-15)
        if sus is None:
            c.close(parts_[2], np.zeros((3, 16)), "field induced without susceptibility", rtol=0, atol=1e-15)
        c.validated(1, "linear")


def check_sums(c, hm, terms, salt):
    from harmonica.errors import NoPhysicalPropertyWarning

    g = rng(salt)
    for n in range(90 if THOROUGH else 24):
        m = int(g.integers(0, 5))
        data, objs = [], []
        for _ in range(m):
            axes, ang, cen = g.uniform(1, 10, 3), g.uniform(-180, 180, 3), g.normal(size=3) * 20
            sus = [None, 0.3, np.diag([0.1, 2.0, 0.4])][g.integers(0, 3)]
            rem = None if g.random() < 0.5 else g.normal(size=3)
            data.append((axes, ang, cen, sus, rem))
            objs.append(hm.Ellipsoid(*axes, *ang, center=tuple(cen), susceptibility=sus, remanent_mag=rem, density=1.0 if g.random() < 0.5 else None))
        if m and n % 2:  # a body that is in the list twice counts twice
            for _ in range(2):
                j = int(g.integers(0, m))
                axes, ang, cen, sus, rem = data[j]
                data.append(data[j])
                objs.append(objs[j] if g.random() < 0.6 else hm.Ellipsoid(*axes, *ang, center=tuple(cen), susceptibility=sus, remanent_mag=rem))
            m += 2
            c.validated(1, "repeated")
        shape = [(), (5,), (2, 3), (1, 1), (4, 1)][n % 5]
        pts = [g.normal(size=shape) * 25 for _ in range(3)]
        if n % 5 == 2:
            pts[2] = np.float64(3.0)
        full = np.broadcast_arrays(*pts)
        flat = np.array([np.asarray(q, dtype=float).ravel() for q in full])
        b0 = g.normal(size=3) * 3e4
        want, size = np.zeros((3, flat.shape[1])), np.zeros(flat.shape[1])
        for axes, ang, cen, sus, rem in data:
            if sus is not None or rem is not None:
                v, s, _ = el.magnetic(terms, axes, el.matrix(*ang), cen, sus, rem, b0, flat)
                want, size = want + v, size + s
        keep = [np.array(q, copy=True) for q in pts]
        keepf = b0.copy()
        arg = [objs, tuple(objs), iter(objs)][n % 3]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = hm.ellipsoid_magnetic(tuple(pts), arg, b0 if n % 2 else [tuple, list][n % 4 // 2](b0))
        warned = sum(issubclass(q.category, NoPhysicalPropertyWarning) for q in w)
        c.equal(warned > 0, any(d[3] is None and d[4] is None for d in data), f"warning about ellipsoids without magnetic properties ({[(d[3], d[4]) for d in data]})")
        for a in got:
            c.equal(np.asarray(a).shape, full[0].shape, "shape of the field")
        field_close(c, got, want, size, f"field of {m} ellipsoids at points of shape {shape}", 1e-7)
        c.true(all(np.array_equal(p, q) for p, q in zip(keep, pts)) and np.array_equal(keepf, b0), "ellipsoid_magnetic modified its arguments")
        c.validated(1, "sum")
    body = hm.Ellipsoid(3, 2, 1, yaw=20, susceptibility=2, remanent_mag=[1, 0, -1])
    pts = g.integers(-9, 10, (3, 12))
    want, size, _ = el.magnetic(terms, [3, 2, 1], el.matrix(20, 0, 0), [0, 0, 0], 2.0, [1, 0, -1], [10000, -20000, 30000], pts)
    got = c.call("integer coordinates", hm.ellipsoid_magnetic, tuple(pts), body, (10000, -20000, 30000))
    if got is not None:
        field_close(c, got, want, size, "field at integer coordinates", 1e-8)


def check_many(c, hm, plans):
    """Many points and many bodies against pieces."""
    g = rng(929)
    n = 40009
    pts = tuple(g.normal(size=n) * 30 for _ in range(3))
    for k, axes in enumerate(((9.0, 6.0, 4.0), (8.0, 8.0, 3.0), (3.0, 9.0, 3.0), (7.0, 7.0, 7.0))):
        body = hm.Ellipsoid(*axes, *g.uniform(-180, 180, 3), center=tuple(g.normal(size=3) * 10), susceptibility=[0.4, np.diag([0.1, 2.0, 0.4])][k % 2], remanent_mag=[1.0, -2.0, 3.0])
        bulk.mapped(c, f"field of the ellipsoid {axes}", lambda p, body=body: hm.ellipsoid_magnetic(p, body, (1e4, 2e4, -4e4)), pts, plans[n], rtol=1e-9)
    n = 503
    many = [hm.Ellipsoid(*g.uniform(1, 9, 3), *g.uniform(-180, 180, 3), center=tuple(g.normal(size=3) * 50), susceptibility=float(g.uniform(0, 2))) for _ in range(n)]
    bulk.summed(c, "field of ellipsoids", lambda q: hm.ellipsoid_magnetic(tuple(p[:30] for p in pts), list(q[0]), (1e4, 2e4, -4e4)), (many,), plans[n])


def check(c):
    import harmonica as hm

    terms, groups = bodies(c, TENSORS)
    k = len(groups) // 3 + 1
    plans = bulk.plans(c, [503, 40009], pieces=(97, 997, 4099))
    c.parts(lambda s: check_many(s, hm, plans), lambda s: check_bodies(s, hm, terms, groups[:k], 921), lambda s: check_bodies(s, hm, terms, groups[k:2 * k], 922), lambda s: check_bodies(s, hm, terms, groups[2 * k:], 923),
            lambda s: check_bodies(s, hm, terms, groups[::-1], 924),
            lambda s: check_shapes(s, hm, terms, 925), lambda s: check_shapes(s, hm, terms, 926), lambda s: check_linear(s, hm, 927), lambda s: check_sums(s, hm, terms, 928),
            lambda s: check_far(s, hm, terms, 929))
    c.require("far", 500)
    c.require("description", 200)
    c.require("shape", 60)
    c.require("close axes", 15)
    c.require("linear", 30)
    c.require("sum", 20)
    c.require("bulk", 5)
