"""Ellipsoids: fields from the terms of EllipsoidBody.tla."""
import numpy as np

from vlib import MachineryError, ev

L = np.longdouble


def euler(rot):
    """yaw, pitch, roll (degrees) of a rotation matrix Rz(yaw) Ry(-pitch) Rx(roll)."""
    sp = np.clip(rot[2, 0], -1, 1)
    pitch = np.arcsin(sp)
    if np.hypot(rot[0, 0], rot[1, 0]) < 1e-9:  # gimbal lock: only the sum matters
        yaw = 0.0
        pitch = np.pi / 2 * np.sign(sp)
        # with yaw 0: columns 2, 3 are [-sp sr, cr, 0], [-sp cr, -sr, 0]
        roll = np.arctan2(-rot[1, 2], rot[1, 1])
    else:
        yaw = np.arctan2(rot[1, 0], rot[0, 0])
        roll = np.arctan2(rot[2, 1], rot[2, 2])
    out = tuple(float(np.degrees(q)) for q in (yaw, pitch, roll))
    if np.abs(matrix(*out) - rot).max() > 1e-7:
        raise MachineryError(f"cannot express the rotation {rot} as angles")
    return out


def matrix(yaw, pitch, roll):
    """Rz(yaw) Ry(-pitch) Rx(roll): the pitch lifts the easting side."""
    y, p, r = np.radians([yaw, pitch, roll])
    rz = np.array([[np.cos(y), -np.sin(y), 0], [np.sin(y), np.cos(y), 0], [0, 0, 1]])
    ry = np.array([[np.cos(p), 0, -np.sin(p)], [0, 1, 0], [np.sin(p), 0, np.cos(p)]])
    rx = np.array([[1, 0, 0], [0, np.cos(r), -np.sin(r)], [0, np.sin(r), np.cos(r)]])
    return rz @ ry @ rx


def random_rotation(g):
    q, r = np.linalg.qr(g.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def local(points, center, rot):
    """Local coordinates (3 longdouble arrays) of points (3, n)."""
    d = np.asarray(points, dtype=L) - np.asarray(center, dtype=L)[:, None]
    return rot.astype(L).T @ d


def root(terms, axes, x):
    """Largest root of the confocal equation (0 inside) by bisection in extended precision."""
    e = [L(q) for q in axes]
    n = x.shape[1]
    env = dict(x1=x[0], x2=x[1], x3=x[2], e1=e[0], e2=e[1], e3=e[2], l=np.zeros(n, dtype=L))
    inside = ev(terms["confocal"], env) < 0
    lo = np.zeros(n, dtype=L)
    hi = (x ** 2).sum(axis=0) + L(1e-30)
    for _ in range(130):
        mid = (lo + hi) / 2
        env["l"] = mid
        pos = ev(terms["confocal"], env) > 0
        lo, hi = np.where(pos, mid, lo), np.where(pos, hi, mid)
    return np.where(inside, 0, (lo + hi) / 2), inside


def env_of(axes, x, lam, **extra):
    e = [L(q) for q in axes]
    return dict(x1=x[0], x2=x[1], x3=x[2], e1=e[0], e2=e[1], e3=e[2], l=lam, **{k: np.asarray(v, dtype=L) for k, v in extra.items()})


def gravity(terms, axes, rot, center, rho, points, G):
    """(easting, northing, downward) in mGal, and the size of the vector."""
    x = local(points, center, rot)
    lam, inside = root(terms, axes, x)
    env = env_of(axes, x, lam, G=G, rho=rho)
    g = np.array([np.broadcast_to(ev(t, env), lam.shape) for t in terms["gravity"]])
    v = (rot.astype(L) @ g).astype(float) * 1e5
    return np.array([v[0], v[1], -v[2]]), np.sqrt((v ** 2).sum(axis=0)), inside


def magnetization(terms, axes, chi, h0, rem):
    """Magnetization in the local frame, from local chi, inducing H and remanence."""
    env = env_of(axes, np.zeros((3, 1)), L(0))
    n = np.diag([float(np.asarray(ev(t, env)).ravel()[0]) for t in terms["factor"]])
    if abs(np.trace(n) - 1) > 1e-9:
        raise MachineryError("demagnetization factors do not add up")
    return np.linalg.solve(np.eye(3) + chi @ n, rem + chi @ h0)


def magnetic(terms, axes, rot, center, chi, rem, b0, points):
    """(be, bn, bu) in nT of the anomalous field, its size scale, and which points are inside."""
    from scipy.constants import mu_0

    h0 = rot.T @ (np.asarray(b0, dtype=float) * 1e-9 / mu_0)
    chi = np.zeros((3, 3)) if chi is None else (chi * np.eye(3) if np.isscalar(chi) else np.asarray(chi, dtype=float))
    m = magnetization(terms, axes, chi, h0, rot.T @ (np.zeros(3) if rem is None else np.asarray(rem, dtype=float)))
    x = local(points, center, rot)
    lam, inside = root(terms, axes, x)
    env = env_of(axes, x, lam, M1=m[0], M2=m[1], M3=m[2])
    with np.errstate(all="ignore"):
        out = np.array([np.broadcast_to(ev(t, env), lam.shape) for t in terms["outside"]])
    ins = np.array([np.broadcast_to(ev(t, env), lam.shape) for t in terms["inside"]]) + np.asarray(m, dtype=L)[:, None]
    h = np.where(inside, ins, out)
    v = (rot.astype(L) @ h).astype(float) * mu_0 * 1e9
    # size of the terms that are added up
    scale = np.sqrt((v ** 2).sum(axis=0))
    return v, scale, inside


def blur(axes, x, close=1.2e-5):
    """Relative rounding error that the closed form in double precision may have at local points x.

    Outside, lambda is the root of a cubic equation (its error grows with the square of the slenderness); the elliptic
    integrals subtract nearly equal numbers when the axes are similar compared with the distance.
    """
    x = np.asarray(x, dtype=float)
    a, b, c = sorted((float(q) for q in axes), reverse=True)
    r2 = (x ** 2).sum(axis=0)
    inside = sum((x[i] / float(axes[i])) ** 2 for i in range(3)) < 1
    # lambda is at least this much outside
    lam = np.where(inside, 0, np.maximum(r2 - a ** 2, 0))
    size = r2 + a ** 2
    eps = 2.3e-16
    cubic = np.where(inside, 0, np.minimum(eps * (size / (lam + c ** 2)) ** 2, np.sqrt(eps) * size / (lam + c ** 2)))
    gaps = [q for q, near in (((a - b) * (a + b), (a - b) / a), ((b - c) * (b + c), (b - c) / b)) if near > close]
    if not gaps:
        loss = 0
    elif len(gaps) == 1:
        loss = eps * size / gaps[0]
    else:
        loss = eps * size * (a ** 2 - c ** 2) / (gaps[0] * gaps[1])
    return 50 * (cubic + loss)


def sample_points(g, axes, rot, center, n):
    """Points inside, on axes and symmetry planes, near the surface and far away, as (3, n), and a mask of those not too close to the surface."""
    axes = np.asarray(axes, dtype=float)
    u = g.normal(size=(3, n))
    u /= np.sqrt((u ** 2).sum(axis=0))
    for k in range(n):
        if k % 4 == 1:
            u[:, k] = 0
            u[k // 4 % 3, k] = (-1.0) ** k * 1.0 if k % 8 < 4 else -1.0
        elif k % 4 == 2:
            u[k // 4 % 3, k] = 0
    s = g.choice([0.2, 0.7, 0.999, 1.001, 1.05, 1.5, 3, 20, 300], size=n)
    x = u * axes[:, None] * s
    far = s > 10
    x[:, far] = u[:, far] * axes.max() * s[far]
    x[:, 0] = 0
    pts = rot @ x + np.asarray(center, dtype=float)[:, None]
    return pts


def far_cases(g, n):
    """Bodies of every kind, from almost spherical to slender, and points from ten to a million radii away."""
    for k in range(n):
        a = 10 ** g.uniform(-1, 3)
        d = 10 ** g.uniform(-4.8, -0.1)
        e = d * 10 ** g.uniform(-1, 0) if d > 2e-4 else 2e-5
        axes = a * np.array([[1, 1 - d, 1 - d], [1, 1, 1 - d], [1, 1 - e, 1 - d], [1, 1 - d + e * (1 - d) / 2, 1 - d]][k % 4])
        axes = axes[g.permutation(3)]
        s = np.sort(axes)
        if any(0 < q < 1.3e-5 for q in ((s[1] - s[0]) / s[1], (s[2] - s[1]) / s[2])):
            continue
        rot = matrix(*(g.uniform(-400, 400, 3) if k % 2 else g.choice([0.0, 90.0, -90.0, 180.0, 45.0], 3)))
        center = g.normal(size=3) * a * 3
        u = g.normal(size=(3, 24))
        u[k % 3, ::3] = 0
        u[(k + 1) % 3, ::6] = 0
        u /= np.sqrt((u ** 2).sum(axis=0))
        pts = rot @ (u * a * 10 ** g.uniform(1, 6, 24)) + center[:, None]
        yield k, axes, rot, euler(rot), center, pts, blur(axes, local(pts, center, rot))
