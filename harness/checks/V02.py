"""Surfaces and meshes of ellipsoids: histories of EllipsoidSurface.tla, and its terms for other sizes and poses."""
import numpy as np

import ellcommon as el
from vlib import THOROUGH, MachineryError, ev, rng

AXES, ANGLES = ("a", "b", "c"), ("yaw", "pitch", "roll")


def state(body):
    return [repr(getattr(body, x)) for x in AXES + ANGLES + ("center", "density", "susceptibility", "remanent_mag")]


def check_mesh(c, body, len_, rot, cen, what, volume, **kw):
    """The mesh of to_pyvista: all on the body, all of it covered, closed."""
    before = state(body)
    mesh = c.call(f"{what}: to_pyvista({kw})", body.to_pyvista, **kw)
    if mesh is None:
        return
    c.equal(state(body), before, f"{what}: attributes after to_pyvista")
    len_, cen = np.asarray(len_, dtype=float), np.asarray(cen, dtype=float)
    p = np.asarray(mesh.points, dtype=float)
    c.true(p.ndim == 2 and p.shape[1] == 3 and len(p) > 8, f"{what}: points of the mesh have shape {p.shape}")
    eps = 4e-6 * (np.abs(cen).max() + len_.max())  # pyvista works in single precision
    q = rot.T @ (p.T - cen[:, None])
    # distance to the surface, to first order
    f = ((q / len_[:, None]) ** 2).sum(axis=0)
    d = np.abs(f - 1) / (2 * np.sqrt(((q / len_[:, None] ** 2) ** 2).sum(axis=0)) + 1e-300)
    c.true(np.all(d < eps), f"{what}: point of the mesh {d.max():.3g} m away from the surface of the body", kw=kw)
    # extent in many directions: the support function of the body
    fine = min(kw.get("u_res", 100), kw.get("v_res", 100))
    h = 6.3 / (fine - 1)
    n = rng(5).normal(size=(3, 60))
    n = np.hstack([rot, -rot, np.eye(3), -np.eye(3), rot @ n]) / np.linalg.norm(np.hstack([rot, -rot, np.eye(3), -np.eye(3), rot @ n]), axis=0)
    want = np.sqrt(((len_[:, None] * (rot.T @ n)) ** 2).sum(axis=0))
    got = (n.T @ (p.T - cen[:, None])).max(axis=1)
    c.true(np.all(got <= want + eps) and np.all(got >= want * (1 - h ** 2) - eps), f"{what}: the mesh does not reach as far as the body", kw=kw, got=got, want=want)
    if np.abs(cen).max() < 100 * len_.min() and len_.max() < 50 * len_.min() and fine > 20:
        v = float(volume)
        c.true(v * (1 - 2 * h ** 2) <= mesh.volume <= v * 1.001, f"{what}: volume of the mesh {mesh.volume}, of the body {v}")
        c.true(mesh.n_open_edges == 0, f"{what}: the mesh is open")
    # the user owns the mesh
    mesh.points[...] = -1.0
    c.equal(state(body), before, f"{what}: attributes after writing on the mesh")
    c.validated(1, "mesh")


def replay(c, hm, trail, terms, n):
    g = rng(40 + n)
    first = trail[0]["body"]
    centers = [tuple, list, lambda v: np.array(v, dtype=float), lambda v: np.array(v), lambda v: tuple(float(x) for x in v)][n % 5]
    num = [int, float, np.float64, np.float32, np.int64][(n // 5) % 5]
    how = n % 3
    kw = dict(zip(ANGLES, (num(90 * t) for t in first["turn"])))
    args = [num(x) for x in first["len"]]
    cen = centers(first["cen"])
    body = c.call("Ellipsoid", hm.Ellipsoid, *args, *kw.values(), cen) if how == 0 else c.call("Ellipsoid", hm.Ellipsoid, *args, **kw, center=cen, density=3.0)
    if body is None:
        return
    b = {k: list(v) for k, v in first.items()}
    held = []
    for e in trail[1:]:
        what = f"history {n} {[{k: v for k, v in t.items() if k != 's'} for t in trail]}"
        if e["op"] == "set":
            k = e["k"] - 1
            setattr(body, (AXES if e["part"] == "len" else ANGLES)[k], num(e["v"] * (90 if e["part"] == "turn" else 1)))
            b[e["part"]][k] = e["v"]
        elif e["op"] == "move":
            body.center = centers(e["v"])
            b["cen"] = list(e["v"])
        else:
            before = state(body)
            s = c.call(f"{what}: get_surface", body.get_surface, lon_size=e["lon"], lat_size=e["lat"])
            if s is None:
                return
            c.equal(len(s), 3, f"{what}: arrays of the surface")
            want = np.moveaxis(np.array(e["s"], dtype=float), 2, 0)
            for k in range(3):
                c.equal(np.shape(s[k]), want[k].shape, f"{what}: shape of the surface")
            c.close(np.array(s), want, f"{what}: surface of lon_size {e['lon']}, lat_size {e['lat']}", rtol=0, atol=1e-12 * (np.abs(want).max() + 1))
            c.equal(state(body), before, f"{what}: attributes after get_surface")
            held.append((s, [np.array(q, copy=True) for q in s]))
            if g.random() < 0.5:  # the user writes on what was received
                for q in s:
                    q[...] = 77.0
                held.pop()
            c.validated(1, "surface")
    for s, old in held:
        c.true(all(np.array_equal(x, y) for x, y in zip(s, old)), f"{what}: a surface handed out before changed")
    rot = el.matrix(*(90.0 * t for t in b["turn"]))
    if n % 40 == 0:
        env = {x: np.longdouble(v) for x, v in zip(AXES, b["len"])}
        check_mesh(c, body, b["len"], rot, b["cen"], what, ev(terms["volume"], env))
    c.validated(1, "history", dict(trail=[{k: v for k, v in t.items() if k != "s"} for t in trail]) if n < 2 else None)


SIZES = [(361, 181), (2, 2), (7, 5), (5, 7), (12, 3), (3, 12), (30, 31), (1, 6), (8, 1), (37, 19), (100, 4), (4, 100), (180, 90), (90, 180), (361, 2), (73, 181)]


def check_general(c, hm, terms, salt):
    """Every size of grid and any pose."""
    g = rng(salt)
    for n in range(150 if THOROUGH else 48):
        scale = 10.0 ** g.integers(-2, 6)
        axes = scale * g.uniform(0.2, 5, 3)
        if n % 4 == 1:
            axes[g.integers(3)] = axes[g.integers(3)]
        if n % 6 == 2:
            axes[:] = axes[0]
        if n % 5 == 3:
            axes[g.integers(3)] *= 10.0 ** g.integers(-4, 3)
        ang = g.uniform(-400, 400, 3) if n % 3 else g.choice([0.0, 90, -90, 180, 45, 37.5], 3)
        if n % 8 in (4, 5):
            ang = ang * 10.0 ** -g.integers(2, 5)  # hardly turned
        cen = g.normal(size=3) * scale * 10.0 ** g.integers(-1, 3) * (n % 7 > 0)
        rot = el.matrix(*ang)
        body = c.call("Ellipsoid", hm.Ellipsoid, *axes, *ang, center=tuple(cen))
        if body is None:
            continue
        what = f"ellipsoid {axes.tolist()} {ang.tolist()} {cen.tolist()}"
        nlon, nlat = SIZES[n % len(SIZES)] if n < 2 * len(SIZES) else (int(g.integers(2, 40)), int(g.integers(2, 40)))
        kw = {} if (nlon, nlat) == (361, 181) else dict(lon_size=nlon, lat_size=nlat)
        if n % 9 == 4 and kw:  # one of them given, the other default
            kw.pop("lat_size"), kw.update(lon_size=nlon)
            nlat = 181
        elif n % 9 == 5 and kw:
            kw.pop("lon_size")
            nlon = 361
        s = c.call(f"{what}: get_surface({kw})", body.get_surface, **kw)
        if s is None:
            continue
        for q in s:
            c.equal(np.shape(q), (nlat, nlon), f"{what}: shape of the surface with {kw}")
        i, j = np.meshgrid(np.arange(nlat).astype(np.longdouble), np.arange(nlon).astype(np.longdouble), indexing="ij")
        env = dict(zip(AXES, map(np.longdouble, axes)), i=i, j=j, nlon=np.longdouble(max(nlon, 2)), nlat=np.longdouble(max(nlat, 2)))
        local = np.array([np.broadcast_to(ev(t, env), i.shape) for t in terms["general"]], dtype=float)
        want = np.tensordot(rot, local, axes=1) + cen[:, None, None]
        tol = 1e-13 * (np.abs(cen).max() + axes.max())
        c.close(np.array(s), want, f"{what}: surface with {kw}", rtol=0, atol=10 * tol, kw=kw)
        c.validated(1, "general")
        if n % 2 == 0:
            mk = [{}, dict(u_res=31, v_res=24, w_res=7), dict(u_res=60), dict(v_res=45)][(n // 2) % 4]
            check_mesh(c, body, axes, rot, cen, what, ev(terms["volume"], env), **mk)
        # a new pose of the same object
        body.yaw, body.a, body.center = float(ang[0] + 33), float(axes[0] * 1.5), tuple(cen + scale)
        rot2 = el.matrix(ang[0] + 33, *ang[1:])
        local[0] *= 1.5
        want = np.tensordot(rot2, local, axes=1) + (cen + scale)[:, None, None]
        s2 = c.call(f"{what}: get_surface after a new pose", body.get_surface, **kw)
        if s2 is not None:
            c.close(np.array(s2), want, f"{what}: surface after a new pose", rtol=0, atol=30 * tol + 1e-12 * scale)


def check(c):
    import harmonica as hm

    inv = ["AllOn", "Closed", "Covers", "Proper", "Emit"]
    small = dict(Lengths="{<<3, 2, 1>>, <<1, 4, 2>>}", Turns="{<<0, 0, 0>>, <<1, 3, 2>>}", Centers="{<<0, 0, 0>>, <<5, -7, 30>>}", LonSizes="{5}", LatSizes="{3}", MaxOps=3)
    full = c.tlc("EllipsoidSurface", constants=small, invariants=inv, properties=["KeepsDrawn"])
    terms = next(q for q in full.cases if q.get("kind") == "def")
    cases = [q["trail"] for q in full.cases if "trail" in q and any(e["op"] == "draw" for e in q["trail"])]
    wide = dict(Lengths="{<<3, 2, 1>>, <<1, 4, 2>>, <<5, 5, 5>>, <<2, 2, 7>>, <<9, 1, 1>>}", Turns="{<<0, 0, 0>>, <<1, 3, 2>>, <<2, 1, 3>>, <<-1, 2, 1>>, <<3, 0, -1>>}",
                Centers="{<<0, 0, 0>>, <<5, -7, 30>>, <<-100, 40, -3>>, <<0, 0, 8>>}", LonSizes="{1, 2, 3, 5}", LatSizes="{1, 2, 3}", MaxOps=8)
    sim = c.tlc("EllipsoidSurface", constants=wide, invariants=inv, simulate=1500 if THOROUGH else 300, depth=10)
    cases2 = [q["trail"] for q in sim.cases if "trail" in q and any(e["op"] == "draw" for e in q["trail"])]
    if len(cases) < 500 or len(cases2) < 200:
        raise MachineryError(f"few histories: {len(cases)} {len(cases2)}")
    g = rng(7)
    if not THOROUGH and len(cases) > 4000:
        cases = [cases[i] for i in sorted(g.choice(len(cases), 4000, replace=False))]

    def histories(s, cs, off):
        for n, t in enumerate(cs):
            replay(s, hm, t, terms, n + off)

    half = len(cases) // 3
    c.parts(lambda s: histories(s, cases[:half], 0), lambda s: histories(s, cases[half:2 * half], half), lambda s: histories(s, cases[2 * half:], 2 * half),
            lambda s: histories(s, cases2, 100000), *(lambda s, k=k: check_general(s, hm, terms, 900 + k) for k in range(3)))
    c.require("surface", 1000)
    c.require("mesh", 60)
    c.require("general", 100)
