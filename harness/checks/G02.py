"""Harmonic synthesis: the closed forms, symmetries and cuts of Harmonics.tla and DegreeSeries.tla replayed on IGRF14."""
import boule
import numpy as np
import xarray as xr

import bulk
import vlib
from vlib import THOROUGH, ev, rng

from . import igrfcommon as ic

L = np.longdouble
RREF = L("6371.2e3")
DATE = "2010-01-01"  # an epoch: the coefficients are those of the file
NAMES = ("east", "north", "up")


def ellipsoids():
    out = [boule.WGS84, boule.GRS80, boule.Ellipsoid(name="ball", semimajor_axis=6371200.0, flattening=1e-9, geocentric_grav_const=3.986e14, angular_velocity=7.292e-5)]
    out.append(boule.Ellipsoid(name="flat", semimajor_axis=6.5e6, flattening=1 / 20, geocentric_grav_const=3.986e14, angular_velocity=7.292e-5))
    return out


def flat(ell):
    return L(ell.semimajor_axis), L(ell.flattening)


class Points:
    """Geodetic points with their spherical coordinates in extended precision."""

    def __init__(self, ell, lon, lat, h):
        a, f = flat(ell)
        self.lon, self.lat, self.h = (np.array(v, dtype=float) for v in np.broadcast_arrays(lon, lat, h))
        rad = L("3.14159265358979323846264338327950288") / 180
        phi = self.lat.astype(L) * rad
        pole = np.abs(self.lat) == 90
        sin, cos = np.where(pole, np.sign(self.lat), np.sin(phi)), np.where(pole, 0, np.cos(phi))
        e2 = f * (2 - f)
        n = a / np.sqrt(1 - e2 * sin ** 2)
        self.p, self.z = (n + self.h) * cos, ((1 - e2) * n + self.h) * sin
        self.r = np.hypot(self.p, self.z)
        x, u = self.z / self.r, self.p / self.r
        turn = (self.lon % 360).astype(L) * rad
        self.env = dict(x=x, u=u, lon=turn, rho=RREF / self.r)
        self.rot = (u * cos + x * sin, x * cos - u * sin)  # cosine and sine of (spherical - geodetic) latitude
        self.sin, self.cos = sin, cos

    def coordinates(self):
        return self.lon, self.lat, self.h

    def geodetic(self, east, north, radial):
        c, s = self.rot
        return east, c * north + s * radial, -s * north + c * radial


def harmonics(cases):
    return {(k["kind"], k["n"], k["m"]): k for k in cases if k["what"] == "harmonic"}


def field(terms, coeffs, pts, lo=1, hi=ic.NMAX):
    out = [np.zeros(pts.lon.shape, dtype=L) for _ in range(3)]
    for (kind, n, m), v in coeffs.items():
        if v == 0 or not lo <= n <= hi:
            continue
        k = terms[kind, n, m]
        for i, part in enumerate(("east", "north", "radial")):
            out[i] = out[i] + L(v) * ev(k[part], pts.env)
    return [np.asarray(v, dtype=float) for v in pts.geodetic(*out)]


def amplitude(coeffs, pts, lo=1, hi=ic.NMAX):
    s = np.zeros(pts.lon.shape)
    for (_, n, _), v in coeffs.items():
        if lo <= n <= hi:
            s = s + abs(v) * (n + 1) * pts.env["rho"].astype(float) ** (n + 2)
    return s


def at_epoch(coeffs):
    """Coefficients of a single epoch as a file: they are the same at all of them."""
    return {(k, n, m): [coeffs.get((k, n, m), 0.0)] * len(ic.YEARS) + [0.0] for n in range(1, ic.NMAX + 1) for m in range(n + 1) for k in ("g", "h") if k == "g" or m}


class Model:
    def __init__(self, hm, coeffs, ell=boule.WGS84, lo=1, hi=ic.NMAX):
        self.undo = ic.install(hm, at_epoch(coeffs))
        self.m = hm.IGRF14(DATE, min_degree=lo, max_degree=hi, ellipsoid=ell)

    def __enter__(self):
        return self.m

    def __exit__(self, *a):
        self.undo()


def sample(g, ell, n=12):
    lon = np.concatenate([g.uniform(-180, 360, n), [0, 180, -180, 360, 540, 33, -77, 10, 10]])
    lat = np.concatenate([g.uniform(-89, 89, n), [0, 10, -10, 45, -60, 90, -90, 89.9, -89.99]])
    h = np.concatenate([g.uniform(-5e3, 1e6, n), [0, 0, 100, 0, 1e4, 50, 1e5, 10, 0]])
    return Points(ell, lon, lat, h)


def compare(c, got, want, amp, what, pts, rtol=1e-11, **kw):
    # near the poles the library's latitudes are only known to the square root of the precision
    near = np.where(np.abs(pts.lat) == 90, 0, 1e-15 / np.maximum(pts.env["u"].astype(float), 1e-8))
    for name, a, b in zip(NAMES, got, want):
        if not c.equal(np.shape(a), np.shape(b), f"{what}: shape of the {name} component"):
            return
        c.close((np.asarray(a) - b) / (np.maximum(amp, 1e-6) * (rtol + 20 * near)) * 1e-3, np.zeros(np.shape(b)), f"{what}: {name} component (scaled misfit; got {np.asarray(a).ravel()[:3]}, specified {b.ravel()[:3]})", rtol=0, atol=1e-3, **kw)


def singles(cases, salt, part_of):
    def part(c):
        import harmonica as hm

        g = rng(salt)
        terms = harmonics(cases)
        ells = ellipsoids()
        for pos, key in enumerate(sorted(terms)):
            if pos % part_of[1] != part_of[0]:
                continue
            kind, n, m = key
            v = float(np.round(g.uniform(1, 1000), 2)) * (1 if g.integers(2) else -1)
            ell = ells[pos % len(ells)]
            pts = sample(g, ell)
            with Model(hm, {key: v}, ell) as model:
                got = c.call(f"{key}", model.predict, pts.coordinates())
                if got is None:
                    continue
                want = field(terms, {key: v}, pts)
                compare(c, got, want, amplitude({key: v}, pts), f"field of {kind} of degree {n} and order {m} ({ell.name})", pts)
                for p in np.flatnonzero(np.abs(pts.lat) == 90):
                    c.true(terms[key]["poleup"] or abs(got[2][p]) <= 1e-9 * abs(v) * n, f"only zonal harmonics have an upward component at the poles: {key}")
                    c.true(terms[key]["poleeast"] or abs(got[0][p]) + abs(got[1][p]) <= 1e-9 * abs(v) * n, f"only harmonics of order one have horizontal components at the poles: {key}")
                region = (float(g.uniform(-180, 0)), float(g.uniform(1, 180)), -90.0, 90.0) if pos % 2 else (-20.0, 30.0, -50.0, 60.0)
                grid = c.call(f"grid of {key}", model.grid, region, 1200.0, shape=(5, 4))
                if grid is not None:
                    nodes = Points(ell, *np.meshgrid(grid.longitude.values, grid.latitude.values), 1200.0)
                    compare(c, [grid[k].values for k in ("b_east", "b_north", "b_up")], field(terms, {key: v}, nodes), amplitude({key: v}, nodes), f"grid of {kind} of degree {n} and order {m} ({ell.name})", nodes)
            c.validated(1, "harmonic", dict(key=key, ellipsoid=ell.name))
    return part


def moved(cases, salt):
    def part(c):
        import harmonica as hm

        g = rng(salt)
        ball = ellipsoids()[0]
        pick = [k for k in cases if k["what"] == "moved"]
        pick = [pick[i] for i in g.permutation(len(pick))[:len(pick) if THOROUGH else 250]]
        lon, lat, h = g.uniform(-180, 180, 6), g.uniform(-85, 85, 6), g.uniform(0, 1e5, 6)
        pts = Points(ball, lon, lat, h)
        base = {}
        for k in sorted(pick, key=lambda k: (k["n"], k["m"], k["kind"])):
            n, m = k["n"], k["m"]
            if (n, m) not in base:
                base = {(n, m): {}}
                for kind in ("g", "h") if m else ("g",):
                    with Model(hm, {(kind, n, m): 100.0}) as model:
                        base[n, m][kind] = np.array(model.predict((lon, lat, h)))
            there = base[n, m]
            x, y = lon + 90 * k["moves"].count("turn"), lat * (-1) ** k["moves"].count("mirror")
            with Model(hm, {(k["kind"], n, m): 100.0}) as model:
                got = c.call("moved", model.predict, (x, y, h))
            if got is None:
                continue
            want = k["mix"][0] * there["g"] + k["mix"][1] * there.get("h", 0)
            want = want * np.array(k["flips"])[:, None]
            compare(c, got, want, amplitude({(k["kind"], n, m): 100.0}, pts), f"{k['kind']} of degree {n} and order {m} after {k['moves']}", pts, rtol=1e-10)
            c.validated(1, "symmetry", k)
    return part


def cuts(series, terms_cases):
    def part(c):
        import harmonica as hm

        g = rng(1200)
        terms = harmonics(terms_cases)
        coeffs = {key: float(np.round(v[-2], 2)) for key, v in ic.coefficients(vlib.SEED + 7).items()}
        ell = boule.WGS84
        pts = sample(g, ell, 5)
        undo = ic.install(hm, at_epoch(coeffs))
        try:
            part_of = {}
            degree = {n: field(terms, coeffs, pts, n, n) for n in range(ic.NMAX + 1)}

            def fields(lo, hi):
                if (lo, hi) not in part_of:
                    m = hm.IGRF14(DATE, min_degree=lo, max_degree=hi)
                    got = c.call(f"degrees {lo} to {hi}", m.predict, pts.coordinates())
                    want = [sum(degree[n][i] for n in range(lo, hi + 1)) for i in range(3)]
                    compare(c, got, want, amplitude(coeffs, pts, lo, hi), f"series of degrees {lo} to {hi}", pts)
                    grid = m.grid((-100, 20, -90, 90), 30.0, shape=(4, 3))
                    nodes = Points(ell, *np.meshgrid(grid.longitude.values, grid.latitude.values), 30.0)
                    compare(c, [grid[k].values for k in ("b_east", "b_north", "b_up")], field(terms, coeffs, nodes, lo, hi), amplitude(coeffs, nodes, lo, hi), f"grid of degrees {lo} to {hi}", nodes)
                    c.equal((model_shape(m.coefficients)), ((hi + 1, hi + 1),) * 2, "shape of the coefficients")
                    part_of[lo, hi] = np.array(got)
                return part_of[lo, hi]

            for k in series:
                whole = fields(*k["whole"])
                pieces = sum(fields(*p) for p in k["pieces"])
                c.close(pieces, whole, f"the pieces {k['pieces']} add up to the series", rtol=0, atol=1e-9 * float(np.abs(whole).max() + 1))
                c.validated(1, "cut", k)
        finally:
            undo()
    return part


def model_shape(coeffs):
    return tuple(np.shape(v) for v in coeffs)


def gradient(cases):
    """The field is minus the gradient of the potential: finite differences of the potential in extended precision."""
    def part(c):
        import harmonica as hm

        g = rng(1201)
        terms = harmonics(cases)
        for trial in range(8 if THOROUGH else 3):
            coeffs = {key: float(np.round(v[3], 2)) for key, v in ic.coefficients(vlib.SEED + 20 + trial).items()}
            ell = ellipsoids()[trial % 4]
            lon, lat, h = g.uniform(-180, 180, 6), g.uniform(-80, 80, 6), g.uniform(0, 5e5, 6)
            pts = Points(ell, lon, lat, h)
            lam = pts.env["lon"]
            place = np.array([pts.p * np.cos(lam), pts.p * np.sin(lam), pts.z])
            axes = dict(east=np.array([-np.sin(lam), np.cos(lam), 0 * lam]), north=np.array([-pts.sin * np.cos(lam), -pts.sin * np.sin(lam), pts.cos]),
                        up=np.array([pts.cos * np.cos(lam), pts.cos * np.sin(lam), pts.sin]))

            def potential(xyz):
                r = np.sqrt((xyz ** 2).sum(axis=0))
                env = dict(x=xyz[2] / r, u=np.hypot(xyz[0], xyz[1]) / r, lon=np.arctan2(xyz[1], xyz[0]), rho=RREF / r)
                v = 0
                for key, a in coeffs.items():
                    v = v + L(a) * ev(terms[key]["potential"], env)
                return v * RREF

            with Model(hm, coeffs, ell) as model:
                got = model.predict((lon, lat, h))
            step = L(4000)
            for name, b in zip(NAMES, got):
                d = axes[name] * step
                slope = sum(w * (potential(place + k * d) - potential(place - k * d)) for k, w in ((1, L(3) / 4), (2, -L(3) / 20), (3, L(1) / 60))) / step
                c.close((b + slope.astype(float)) / amplitude(coeffs, pts), np.zeros(6), f"{name} component against the slope of the potential ({ell.name})", rtol=0, atol=1e-9)
            c.validated(1, "gradient")
    return part


def shapes(cases, plans):
    """Arguments of many shapes, grids of many descriptions."""
    def part(c):
        import harmonica as hm

        g = rng(1202)
        terms = harmonics(cases)
        coeffs = {key: float(np.round(v[5], 2)) for key, v in ic.coefficients(vlib.SEED + 40).items() if key[1] <= 6}
        ell = boule.WGS84
        with Model(hm, coeffs, hi=6) as model:
            for shape in ((), (1,), (5,), (1, 1), (2, 3), (3, 1, 2)):
                lon, lat, h = (g.uniform(a, b, shape) for a, b in ((-180, 360), (-90, 90), (0, 1e5)))
                pts = Points(ell, lon, lat, h)
                want = field(terms, coeffs, pts)
                amp = amplitude(coeffs, pts)
                forms = dict(arrays=(lon, lat, h), extra=(lon, lat, h, lon * 0))
                if shape == ():
                    forms.update(floats=(float(lon), float(lat), float(h)))
                elif len(shape) == 1:
                    forms.update(lists=(list(lon), list(lat), list(h)))
                    forms.update(strided=tuple(np.repeat(v, 2)[::2] for v in (lon, lat, h)))
                else:
                    forms.update(fortran=tuple(np.asfortranarray(v) for v in (lon, lat, h)), xarray=tuple(xr.DataArray(v) for v in (lon, lat, h)))
                for name, coords in forms.items():
                    keep = [np.array(v) for v in coords]
                    got = c.call(f"predict at {name} of shape {shape}", model.predict, coords)
                    if got is None:
                        continue
                    compare(c, got, want, amp, f"predict at {name} of shape {shape}", pts)
                    c.true(all(np.array_equal(a, np.array(b)) for a, b in zip(keep, coords)), "predict modified the coordinates")
                    c.validated(1, "shape")
            ints = (np.array([10, -50, 200]), np.array([0, 45, -90]), np.array([0, 1000, 20000]))
            pts = Points(ell, *ints)
            compare(c, c.call("integers", model.predict, ints), field(terms, coeffs, pts), amplitude(coeffs, pts), "predict at integers", pts)
            # long surveys and fine grids against pieces
            bulk.mapped(c, "predict", model.predict, (g.uniform(-180, 360, 40009), g.uniform(-90, 90, 40009), g.uniform(-1e3, 1e5, 40009)), plans[40009], rtol=1e-10)
            grid = c.call("large grid", model.grid, (-20, 40, -30, 50), 10.0, shape=(201, 307))
            if grid is not None:
                lon, lat = (v.ravel() for v in np.meshgrid(grid.longitude.values, grid.latitude.values))
                want = bulk.joined(model.predict, (lon, lat, 0 * lon + 10.0), plans[201 * 307])
                c.close(np.array([grid[q].values.ravel() for q in ("b_east", "b_north", "b_up")]), want, "grid of 201 by 307 against pieces", rtol=1e-10, scale=float(np.abs(want).max()))
                c.validated(1, "bulk")
            # grids
            for kw, n in ((dict(shape=(3, 4)), (3, 4)), (dict(spacing=10), (9, 7)), (dict(spacing=(20, 15)), (5, 5)), (dict(), None), (dict(shape=(2, 2)), (2, 2)),
                          (dict(spacing=11, adjust="region"), None), (dict(shape=(3, 3), height="array"), (3, 3))):
                height = 250.0
                if kw.pop("height", None):
                    height = g.uniform(0, 1e5, (3, 3))
                grid = c.call(f"grid {kw}", model.grid, (-20, 40, -30, 50), height, **kw)
                if grid is None:
                    continue
                lon, lat = grid.longitude.values, grid.latitude.values
                if n is None and not kw:  # the sampling theorem
                    n = tuple(int(round(v / (180 / 14.0))) + 1 for v in (80, 60))
                if n:
                    c.equal((lat.size, lon.size), n, f"nodes of the grid {kw}")
                    c.close([lon[0], lon[-1], lat[0], lat[-1]], [-20, 40, -30, 50], f"region of the grid {kw}", rtol=1e-12)
                c.equal(tuple(grid.b_east.dims), ("latitude", "longitude"), "dimensions of the grid")
                c.close(grid.height.values, np.broadcast_to(height, (lat.size, lon.size)), "heights of the grid", rtol=1e-15)
                nodes = Points(ell, *np.meshgrid(lon, lat), height)
                compare(c, [grid[k].values for k in ("b_east", "b_north", "b_up")], field(terms, coeffs, nodes), amplitude(coeffs, nodes), f"grid {kw}", nodes)
                got = model.predict(nodes.coordinates())
                compare(c, [grid[k].values for k in ("b_east", "b_north", "b_up")], got, amplitude(coeffs, nodes), f"grid {kw} and the predictions at its nodes", nodes)
                c.validated(1, "grid")
    return part


def check(c):
    c.assumptions += ["the coefficient file is replaced by synthetic ones of the same layout (the real one needs the network)",
                      "between a metre and a few kilometres from the poles the tolerance follows the precision of the geocentric latitude; maximum degrees below one are not requested"]
    cases = c.tlc("Harmonics", constants=dict(MaxDegree=ic.NMAX, MaxMoves=3 if THOROUGH else 2), invariants=["FullTurn", "HalfTurn", "TwoMirrors", "Zonal", "Size", "Emit"]).cases
    series = c.tlc("DegreeSeries", constants=dict(MaxDegree=ic.NMAX, MaxPieces=3), invariants=["Cover", "Emit"], properties=["Kept"]).cases
    n = 3
    c.parts(cuts(series, cases), gradient(cases), shapes(cases, bulk.plans(c, [40009, 201 * 307])), moved(cases, 1203), *[singles(cases, 1210 + i, (i, n)) for i in range(n)])
    c.require("harmonic", 190)
    c.require("symmetry", 200)
    c.require("cut", 1000)
    c.require("gradient", 3)
    c.require("shape", 12)
    c.require("grid", 6)
    c.require("bulk", 2)
