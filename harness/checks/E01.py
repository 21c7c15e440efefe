"""State of ellipsoids under assignments: histories of EllipsoidState.tla."""
import numpy as np

import ellcommon as el
from vlib import THOROUGH, ev, rng

AXES, ANGLES = ("a", "b", "c"), ("yaw", "pitch", "roll")
SUS = np.array([[0.9, 0.1, 0.0], [0.1, 0.5, 0.2], [0.0, 0.2, 0.3]])
REM = [1.5, -2.0, 3.5]
VALUES = {
    **{x: {"2": 2, "7": 7, "7.5": 7.5, "np3": np.float64(3.0), "0": 0, "-3": -3.0, "nan": float("nan")} for x in AXES},
    **{x: {"0": 0, "35": 35, "-120": -120.0, "np90": np.float32(90), "725": 725} for x in ANGLES},
    "center": {"origin": (0, 0, 0), "moved": (10.5, -4.0, 3), "ints": [3, 0, -7], "carray": np.array([0.0, 2.5, 0.0]), "pair": (1, 2), "four": (0.0, 0, 0, 0), "row": np.zeros((1, 3)), "number": 0.0},
    "density": {"none": None, "100": 100.0, "np250": np.float64(250), "int3": 3, "zero": 0, "-40": -40.0, "list": [100.0], "text": "dense", "array": np.array([100.0])},
    "susceptibility": {"none": None, "0.5": 0.5, "int1": 1, "zero": 0.0, "-0.01": -0.01, "tensor": np.diag([0.1, 0.2, 0.3]), "skew": SUS, "array3": np.array([0.1, 0.2, 0.3]),
                       "array22": np.eye(2), "array331": np.zeros((3, 3, 1)), "list": SUS.tolist(), "text": "much"},
    "remanent_mag": {"none": None, "list": list(REM), "tuple": tuple(REM), "array": np.array(REM), "zeros": [0, 0, 0], "integers": np.array([1, 0, -2]), "list2": [1.0, 2.0], "array33": np.eye(3), "array4": np.arange(4.0),
                     "matrix1": np.array([REM]), "number": 3.0, "dict": {"x": 1}},
}
DEFAULT = {"a": "7", "b": "2", "c": "np3", "yaw": "0", "pitch": "0", "roll": "0", "center": "origin", "density": "none", "susceptibility": "none", "remanent_mag": "none"}
POINTS = (np.array([0.1, 20.0, -5.0, 0.5]), np.array([0.2, 3.0, -8.0, -0.5]), np.array([-0.1, 1.0, 9.0, 0.3]))
ERRORS = {"ValueError": ValueError, "TypeError": TypeError}


def same(got, label, attr):
    want = VALUES[attr][label]
    if want is None or got is None:
        return want is None and got is None
    return np.shape(got) == np.shape(want) and np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float))


def state_ok(c, body, labels, what):
    for x, v in labels.items():
        c.true(same(getattr(body, x), v, x), f"{what}: {x} is {getattr(body, x)!r}, specified {VALUES[x][v]!r}")


def value(x, v, g):
    """A fresh object each time, so that objects cannot share state."""
    q = VALUES[x][v]
    return q.copy() if isinstance(q, np.ndarray) else list(q) if isinstance(q, list) else q


def build(hm, labels, g=None):
    kw = {x: value(x, v, g) for x, v in labels.items()}
    return hm.Ellipsoid(kw.pop("a"), kw.pop("b"), kw.pop("c"), **kw)


def deep(c, hm, body, labels, terms, what):
    """Everything derived from the attributes."""
    env = {x: np.longdouble(float(VALUES[x][labels[x]])) for x in ANGLES}
    want = np.array([[float(ev(t, env)) for t in row] for row in terms["rotation"]])
    c.close(body.rotation_matrix, want, f"{what}: rotation matrix", rtol=0, atol=1e-12, labels=labels)
    axes = np.array([float(VALUES[x][labels[x]]) for x in AXES])
    center = np.array(VALUES["center"][labels["center"]], dtype=float)
    for kw in ({}, dict(lon_size=7, lat_size=5)):
        s = np.array(body.get_surface(**kw))
        c.equal(s.shape, (3, kw.get("lat_size", 181), kw.get("lon_size", 361)), f"{what}: shape of the surface")
        q = want.T @ (s.reshape(3, -1) - center[:, None])
        c.close(((q / axes[:, None]) ** 2).sum(axis=0), np.ones(q.shape[1]), f"{what}: points of the surface", rtol=1e-11, labels=labels)
    # poles and the point of longitude 0 are where the angles say
    c.close(s[:, 0, 0], center - want[:, 2] * axes[2], f"{what}: lower pole of the surface", rtol=0, atol=1e-12 * 20)
    c.close(s[:, 2, 0], center + want[:, 0] * axes[0], f"{what}: surface at the first semiaxis", rtol=0, atol=1e-12 * 20)
    # reference without history
    ref = build(hm, labels)
    c.equal(str(body), str(ref), f"{what}: text")
    c.equal(repr(body), repr(ref), f"{what}: repr")
    if labels["density"] != "none":
        a, b = hm.ellipsoid_gravity(POINTS, body), hm.ellipsoid_gravity(POINTS, ref)
        c.close(np.array(a), np.array(b), f"{what}: gravity against an ellipsoid built with these values", rtol=1e-13)
    if labels["susceptibility"] != "none" or labels["remanent_mag"] != "none":
        a, b = (hm.ellipsoid_magnetic(POINTS, q, (20000.0, -3000.0, 40000.0)) for q in (body, ref))
        c.close(np.array(a), np.array(b), f"{what}: magnetic field against an ellipsoid built with these values", rtol=1e-13)
    state_ok(c, body, labels, what + " after computing fields")
    c.validated(1, "derived")


def replay(c, hm, trail, alive, terms, g, deep_rate):
    body, labels = None, None
    for n, (x, v, o) in enumerate(trail):
        what = f"history {[tuple(t) for t in trail[: n + 1]]}"
        val = value(x, v, g)
        new = o.startswith("new")
        err = next((ERRORS[e] for e in ERRORS if o.endswith(e)), None)

        def do():
            if not new:
                setattr(body, x, val)
                return body
            return build(hm, {**DEFAULT, x: v}, g)

        if err is None:
            r = c.call(what, do)
            if r is None:
                return
            if new:
                body, labels = r, dict(DEFAULT)
            labels[x] = v
        elif not c.raises(what, err, do):
            return
        if body is not None:
            state_ok(c, body, labels, what)
            if g.random() < deep_rate:
                deep(c, hm, body, labels, terms, what)
        c.validated(1, "refused" if err else "accepted")
    c.equal(body is not None, alive, f"an object exists after {trail}")
    if body is not None and len(trail) > 1:
        deep(c, hm, body, labels, terms, f"history {trail}")
    c.validated(1, "history", dict(trail=trail))


def check_mesh(c, hm, salt):
    """to_pyvista shows the same body."""
    try:
        import pyvista  # noqa: F401
    except ModuleNotFoundError:
        return
    g = rng(salt)
    for n in range(8):
        axes, ang, cen = g.uniform(1, 9, 3), g.uniform(-180, 180, 3), g.normal(size=3) * (30 if n else 0)
        body = hm.Ellipsoid(*axes, *ang, center=tuple(cen))
        kw = [{}, dict(u_res=11, v_res=12, w_res=7)][n % 2]
        mesh = c.call("to_pyvista", body.to_pyvista, **kw)
        if mesh is None:
            return
        q = el.matrix(*ang).T @ (np.asarray(mesh.points, dtype=float).T - cen[:, None])
        c.close(((q / axes[:, None]) ** 2).sum(axis=0), np.ones(q.shape[1]), f"points of the mesh of the ellipsoid {axes.tolist()} {ang.tolist()}", rtol=1e-4)
        c.close(np.abs(q).max(axis=1), axes, "extent of the mesh", rtol=0.2)
        c.validated(1, "mesh")


def check_default(c, hm):
    """Defaults and independence of objects."""
    a, b = hm.Ellipsoid(3, 2, 1), hm.Ellipsoid(3, 2, 1)
    c.equal([float(a.yaw), float(a.pitch), float(a.roll), tuple(map(float, a.center)), a.density, a.susceptibility, a.remanent_mag],
            [0.0, 0.0, 0.0, (0.0, 0.0, 0.0), None, None, None], "attributes of Ellipsoid(3, 2, 1)")
    a.yaw, a.center, a.density, a.susceptibility, a.remanent_mag, a.b = 10, (1, 2, 3), 5.0, 0.1, [1, 2, 3], 9
    c.equal([float(b.yaw), tuple(map(float, b.center)), b.density, b.susceptibility, b.remanent_mag, float(b.b)], [0.0, (0.0, 0.0, 0.0), None, None, None, 2.0], "another ellipsoid after assignments")
    b.a, b.b, b.c = 1, 1.5, 8
    c.equal([float(a.a), float(a.b), float(a.c)], [3.0, 9.0, 1.0], "semiaxes after assignments to another ellipsoid")
    # several invalid semiaxes; every order of the arguments
    for bad in ((0, 1, 1), (1, 0, 1), (1, 1, 0), (-1, 2, 3), (2, -1, 3), (2, 3, -1), (-1, -1, -1), (0, 0, 0), (-0.0, 1, 1), (1, 1, -1e-300), (float("nan"), 1, 1), (2, float("nan"), 1), (2, 1, float("nan"))):
        c.raises(f"Ellipsoid{bad}", ValueError, hm.Ellipsoid, *bad)
    c.validated(1, "defaults")


def check(c):
    import harmonica as hm

    attrs = "Axes \\cup Angles \\cup {\"center\", \"density\", \"susceptibility\", \"remanent_mag\"}"
    inv = ["TypeOk", "LastWins", "Emit"]
    short = c.tlc("EllipsoidState", constants=dict(MaxOps=3 if THOROUGH else 2, Attrs=attrs), invariants=inv, properties=["OnlyOne"])
    long_ = c.tlc("EllipsoidState", constants=dict(MaxOps=14, Attrs=attrs), invariants=inv, simulate=60 if THOROUGH else 12, depth=15)
    terms = [k for k in short.cases if k.get("kind") == "def"][0]
    hist = [k for k in short.cases if "trail" in k]
    g = rng(911)
    ones = [k for k in hist if len(k["trail"]) == 1]
    more = [k for k in hist if len(k["trail"]) > 1]
    pick = ones + [more[i] for i in g.permutation(len(more))[: 20000 if THOROUGH else 1500]]
    runs = [k for k in long_.cases if len(k.get("trail", [])) >= 9]
    runs = [runs[i] for i in g.permutation(len(runs))[: 2000 if THOROUGH else 150]]

    def part(ks, rate, salt):
        return lambda s: [replay(s, hm, k["trail"], k["alive"], terms, rng(salt), rate) for k in ks]

    n = len(pick) // 3 + 1
    c.parts(part(pick[:n], 0, 912), part(pick[n:2 * n], 0, 913), part(pick[2 * n:], 0, 914), part(runs, 0.2, 915), lambda s: check_mesh(s, hm, 916), lambda s: check_default(s, hm))
    c.require("derived", 200)
    c.require("refused", 300)
    c.require("accepted", 500)
    c.require("history", 500)
    c.require("defaults", 1)
