"""Density functions of radius: the models of DensityModel.tla replayed on variable-density tesseroids."""
import numpy as np
from numba import carray, jit, types
from numba.extending import intrinsic
from scipy.constants import G

import tesscommon as tc
from vlib import THOROUGH, MachineryError, ev, rng

L = np.longdouble
UNIT = 637.1e3  # metres per unit of the specification

BUF = np.zeros(6)
ADDRESS = BUF.ctypes.data


@intrinsic
def pointer(typingctx, src):
    sig = types.CPointer(types.float64)(src)

    def codegen(context, builder, signature, args):
        return builder.inttoptr(args[0], context.get_value_type(types.CPointer(types.float64)))

    return sig, codegen


@jit(nopython=True)
def density(r):
    """c0 + c1 r + c2 exp(c3 (r - c4)) + c5 (r - c4)^2 with the coefficients currently in BUF (one compilation for all functions)."""
    q = carray(pointer(ADDRESS), 6)
    return q[0] + q[1] * r + q[2] * np.exp(q[3] * (r - q[4])) + q[5] * (r - q[4]) ** 2


def use(*coefs):
    BUF[:] = 0
    BUF[: len(coefs)] = coefs


def shell(layers, lon=30.0, lat=30.0):
    return np.array([[w, w + lon, s, s + lat, b, t] for b, t in layers for w in np.arange(0, 360, lon) for s in np.arange(-90, 90, lat)])


def scene_points(g, bottom, top, n=4):
    lon, lat = g.uniform(-180, 360, n), g.uniform(-90, 90, n)
    r = top * (1 + 10 ** g.uniform(-3, 0, n))
    r[-1] = bottom * g.uniform(0.2, 0.8)
    return lon, lat, r


def check_models(c, hm, terms, cases, field, salt):
    g = rng(salt)
    for pos, k in enumerate(cases):
        layers = sorted((b * UNIT, t * UNIT) for b, t in k["layers"])
        a0, a1 = k["f"][0] * 100.0, k["f"][1] * 100.0 / UNIT
        use(a0, a1)
        m2, m1 = k["m2"] / 12 * 100.0 * UNIT ** 3, k["m1"] / 6 * 100.0 * UNIT ** 2
        big = max(abs(a0 + a1 * r) for l in layers for r in l)
        s2 = sum(big * (t ** 3 - b ** 3) / 3 for b, t in layers)
        s1 = sum(big * (t ** 2 - b ** 2) / 2 for b, t in layers)
        tess = shell(layers)
        keep = tess.copy()
        lon, lat, r = scene_points(g, layers[0][0], layers[-1][1])
        got = c.call(f"{field} of density {k['f']}", hm.tesseroid_gravity, (lon, lat, r), tess, density, field, parallel=True)
        if got is None:
            continue
        env = lambda m, n, x: dict(G=L(G), m2=L(m), m1=L(n), r=L(x))  # noqa: E731
        want = np.array([float(ev(terms[field][int(i == 3)], env(m2, m1, x))) for i, x in enumerate(r)])
        scale = np.array([float(ev(terms[field][int(i == 3)], env(s2, s1, x))) for i, x in enumerate(r)])
        if field == "g_z":
            scale[3] = 1e5 * G * 4 * np.pi * s2 / layers[-1][1] ** 2
        c.close(got[:3], want[:3], f"{field} of a shell with density {k['f'][0]} + {k['f'][1]} r on layers {k['layers']}", rtol=1e-3, scale=scale[:3], r=r, lon=lon, lat=lat)
        c.close(got[3], want[3], f"{field} in the cavity of a shell with density {k['f']}", rtol=2e-3, scale=scale[3], r=r, lon=lon, lat=lat)
        c.true(np.array_equal(keep, tess), "the tesseroids were modified")
        c.validated(1, field, dict(layers=k["layers"], f=k["f"]))
        if a1 == 0:
            flat = c.call("constant density", hm.tesseroid_gravity, (lon, lat, r), tess, np.full(len(tess), a0), field, parallel=True)
            if flat is not None:
                c.close(got, flat, f"{field} of the constant function {a0} against the constant", rtol=1e-8, scale=scale)
                c.validated(1, "constant")


FUNCS = {
    "linear": lambda b, t, g: (3300.0, -0.2 * g.uniform(0.1, 1) * 3000 / t),
    "linear through zero": lambda b, t, g: (-1000 * (b + t) / (t - b), 2000 / (t - b)),
    "exponential": lambda b, t, g: (2670.0, 0.0, 630.0, -g.uniform(2, 10) / (t - b), b),
    "steep exponential": lambda b, t, g: (2000.0, 0.0, 700.0, g.uniform(30, 100) / (t - b), t),
    "quadratic": lambda b, t, g: (2000.0, 0.0, 0.0, 0.0, b + g.uniform(0, 1) * (t - b), float(g.choice([-1, 1])) * 1500 / (t - b) ** 2),
    "constant": lambda b, t, g: (1234.0,),
}


def check_slices(c, hm, terms, field, parallel, salt):
    """Slices are a partition; the field is the quadrature over slices and their pieces; thin layers give the same field."""
    from harmonica._forward import _tesseroid_variable_density as tvd

    g = rng(salt)
    ratio = {k: v[1] / v[2] for k, v in terms["ratio"].items()}[field]
    for trial in range(120 if THOROUGH else 24):
        name = list(FUNCS)[trial % len(FUNCS)]
        nt = 1 + trial % 3
        w, s = g.uniform(-170, 160), g.uniform(-70, 50)
        top = 6371e3
        thick = 10 ** g.uniform(2.5, 5.3)
        bounds = [[w, w + g.uniform(0.5, 15), s, s + g.uniform(0.5, 15), top - thick, top]]
        for _ in range(nt - 1):
            b = list(bounds[-1])
            b[0], b[1] = b[1], b[1] + g.uniform(0.5, 5)
            b[4] = top - thick * g.uniform(0.3, 1)
            bounds.append(b)
        if trial % 5 in (1, 3):  # one more of the same thickness at another depth
            b = list(bounds[-1])
            b[4], b[5] = b[4] - 0.5 * (b[5] - b[4]), b[5] - 0.5 * (b[5] - b[4])
            b[0], b[1] = b[1], b[1] + g.uniform(0.5, 5)
            bounds.append(b)
            c.validated(1, "same thickness")
        tess = np.array(bounds)
        if trial % 4 == 1:  # tesseroids without volume contribute nothing, whatever the density
            flat = tess[0].copy()
            flat[4] = flat[5]
            tess = np.insert(tess, int(g.integers(0, nt + 1)), flat, axis=0)
        use(*FUNCS[name](top - thick, top, g))
        keep = tess.copy()
        parts = []
        for t in tess:
            if t[4] == t[5]:
                continue
            out = c.call(f"slices of {t} ({name})", tvd._density_based_discretization, t.copy(), density)
            if out is None:
                return
            out = np.array(out)
            out = out[np.argsort(out[:, 4])]
            c.close(out[:, :4], np.tile(t[:4], (len(out), 1)), f"horizontal bounds of the slices ({name})", rtol=0)
            c.close([out[0, 4], out[-1, 5]], t[4:], f"ends of the slices ({name})", rtol=0)
            c.close(out[1:, 4], out[:-1, 5], f"consecutive slices ({name})", rtol=0)
            c.true(bool((out[:, 5] > out[:, 4]).all()), f"slices without volume ({name})")
            if name in ("linear", "constant", "linear through zero"):
                c.equal(len(out), 1, f"number of slices of a {name} density")
            parts.append(out)
            c.validated(1, "slices")
        if hasattr(tvd, "density_based_discretization"):
            together = np.array(tvd.density_based_discretization(tess[tess[:, 4] < tess[:, 5]], density))
            c.close(np.array(sorted(map(tuple, together))), np.array(sorted(map(tuple, np.concatenate(parts)))), "slices of several tesseroids", rtol=0)
        n = 3
        lon, lat = g.uniform(w - 3, w + 12, n), g.uniform(s - 3, min(s + 12, 90), n)
        r = top + thick + 10 ** g.uniform(3.5, 6, n)
        got = c.call(f"{field} ({name})", hm.tesseroid_gravity, (lon, lat, r), tess, density, field, parallel=parallel)
        if got is None:
            continue
        c.true(np.array_equal(keep, tess), "the tesseroids were modified")
        for i in range(n):
            want, size, skip = 0.0, 0.0, False
            for sl in np.concatenate(parts):
                tr = tc.tree(terms, (lon[i], lat[i], r[i]), sl, ratio, False, limit=4000)
                if tr is None or tr[1] < 1e-7:
                    skip = True
                    break
                v = tc.quadrature(terms["kernel"][field], (lon[i], lat[i], r[i]), sl, tr[0][0],
                                  lambda q: BUF[0] + BUF[1] * q + BUF[2] * np.exp(BUF[3] * (q - BUF[4])) + BUF[5] * (q - BUF[4]) ** 2, G)
                want, size = want + v, size + abs(v)
            if not skip:
                c.close(got[i], want, f"{field} of {len(tess)} tesseroids with a {name} density against the quadrature over its pieces", rtol=1e-8, scale=size)
                c.validated(1, "quadrature")
        # the equivalent stack of thin homogeneous tesseroids
        thin, rho = [], []
        for t in tess:
            if t[4] == t[5]:
                continue
            edges = np.linspace(t[4], t[5], 81)
            thin += [[*t[:4], a, b] for a, b in zip(edges[:-1], edges[1:])]
            x, wts = np.polynomial.legendre.leggauss(6)
            for a, b in zip(edges[:-1], edges[1:]):
                rad = (a + b) / 2 + (b - a) / 2 * x
                rho.append(sum(density(q) * q * q * v for q, v in zip(rad, wts)) / (rad ** 2 * wts).sum())
        ref = hm.tesseroid_gravity((lon, lat, r), np.array(thin), np.array(rho), field, parallel=True)
        size = hm.tesseroid_gravity((lon, lat, r), np.array(thin), np.abs(rho), field, parallel=True)
        c.close(got, ref, f"{field} with a {name} density against a stack of thin tesseroids", rtol=5e-3 if name == "linear through zero" else 1e-3, scale=np.abs(size))
        c.validated(1, "stack")
        # scaling the function scales the field
        coefs = BUF.copy()
        BUF[[0, 1, 2, 5]] *= -3.0
        other = c.call(f"{field} of a scaled function", hm.tesseroid_gravity, (lon, lat, r), tess, density, field, parallel=parallel)
        if other is not None:
            c.close(other, -3 * got, f"{field} after scaling a {name} density by -3", rtol=3e-3 if "exp" in name or name == "quadratic" else 1e-8, scale=3 * np.abs(size))
        BUF[:] = coefs


def check(c):
    import harmonica as hm

    r = c.tlc("DensityModel", constants=dict(Bottom=5, Top=10, Cuts="{6, 8}", Consts="{0, 7, -3}", Slopes="{0, 1, -2}", Factors="{2, -1}", MaxSteps=3 if THOROUGH else 2),
              invariants=["NoOverlap", "Sandwich", "Emit", "EmitDef"], properties=["SameMass", "Linear"])
    terms = [k for k in r.cases if k.get("kind") == "def"][0]
    cases = list({str((sorted(k["layers"]), k["f"])): k for k in r.cases if "layers" in k and k["f"] != [0, 0]}.values())
    geo = c.tlc("Discretize", constants=dict(Axes="{1}", MaxLevel=2, Limit=9), invariants=["Partition", "Emit"]).cases[0]
    g = rng(801)
    use(5.0, 2.0, 3.0, 0.5, 1.0, 0.25)
    if abs(density(3.0) - (5 + 6 + 3 * np.exp(1.0) + 1.0)) > 1e-12:
        raise MachineryError("the density function does not read its coefficients")
    n = 400 if THOROUGH else 40
    jobs = []
    for f in ("potential", "g_z"):
        for half in (0, 1):
            some = [cases[i] for i in g.permutation(len(cases))[:n // 2]]
            jobs.append(lambda s, f=f, some=some, half=half: check_models(s, hm, terms, some, f, 802 + half))
            jobs.append(lambda s, f=f, half=half: check_slices(s, hm, geo, f, bool(half), 804 + half))
    c.parts(*jobs)
    c.require("potential", 20)
    c.require("g_z", 20)
    c.require("slices", 60)
    c.require("constant", 3)
    c.require("quadrature", 60)
    c.require("stack", 30)
    c.require("same thickness", 10)
