import numpy as np

from vlib import ev

G = 6.6743e-11
L = np.longdouble
INVS = ["InvMirror", "InvExists", "InvEdge", "InvVertex", "Emit"]

# axis maps: (below, lower, inside, upper, above) per axis
MAPS = {
    "unit": [(-2.0, -1.0, 0.25, 1.0, 2.5)] * 3,
    "plate": [(-340.0, -200.0, 13.0, 150.0, 155.0), (10.0, 20.0, 21.0, 60.0, 300.0), (-900.0, -30.0, -18.0, -10.0, -4.0)],
    "utm": [(499000.0, 500000.0, 500100.0, 500350.0, 503000.0), (7100000.0, 7100500.0, 7100600.0, 7101500.0, 7101700.0),
            (-3000.0, -2000.0, -700.0, 0.0, 500.0)],
    "needle": [(-3.0, -0.5, 0.0, 0.5, 0.75), (-3.0, -0.5, 0.25, 0.5, 9.0), (-600.0, -500.0, -20.0, 0.0, 1.0)],
    # a small block in projected coordinates, a thin sheet, a speck and a continent
    "block": [(651233.0, 651234.0, 651234.25, 651235.0, 651237.0), (7208898.5, 7208900.0, 7208900.75, 7208901.0, 7208902.0), (-3.0, -1.0, -0.5, 0.5, 1.0)],
    "sheet": [(-900.0, -400.0, -30.0, 250.0, 260.0), (-80.0, -30.0, 700.0, 1000.0, 1500.0), (-12.0, -10.0, -9.9990234375, -9.998046875, -8.0)],
    "speck": [(-0.0078125, -0.001953125, 0.0, 0.001953125, 0.005859375)] * 2 + [(0.0, 0.0009765625, 0.001953125, 0.0029296875, 0.0078125)],
    "continent": [(-3e6, -2e6, 1e5, 1.5e6, 4e6), (-1e6, -1000.0, 0.0, 2.5e6, 3e6), (-2e5, -3.5e4, -1e4, 0.0, 2e5)],
}


def random_map(g):
    out = []
    for _ in range(3):
        x = np.sort(np.round(g.uniform(-1000, 1000, 5), 3))
        while np.diff(x).min() < 5:
            x = np.sort(np.round(g.uniform(-1000, 1000, 5), 3))
        out.append(tuple(float(v) for v in x))
    return out


def prism_of(m):
    return [m[0][1], m[0][3], m[1][1], m[1][3], m[2][1], m[2][3]]


def obs_of(m, poss):
    return tuple(np.array([m[k][p[k]] for p in poss], dtype=float) for k in range(3))


def spec_values(corners, obs, prism, unit, **binds):
    """(value, scale): sum of the specified corner terms and of their absolute values."""
    env = {}
    for k, n in enumerate("xyz"):
        for s in (0, 1):
            env[f"{n}{s + 1}"] = L(prism[2 * k + s]) - np.asarray(obs[k], L)
    env.update({a: L(b) for a, b in binds.items()})
    with np.errstate(all="ignore"):
        t = [np.asarray(ev(c, env), L) + np.zeros(len(obs[0]), L) for c in corners]
    t = np.array(t) * L(10) ** unit
    return t.sum(0), np.abs(t).sum(0).astype(float)
