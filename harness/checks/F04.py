"""Point masses: every case of PointField.tla replayed on point_gravity."""
import numpy as np

import vlib
from vlib import THOROUGH, ev, rng

G = 6.6743e-11
L = np.longdouble
INVS = ["InvTrace", "InvAlias", "InvParity", "InvDown", "InvDipole", "Emit"]
# where the source is, the unit of length and the unit of strength
REGIMES = [((0.0, 0.0, 0.0), 1.0, 1.0), ((500000.0, -7200000.0, -1500.0), 250.0, 1.0), ((0.0, 0.0, 0.0), 2.0 ** -12, 2.0 ** -30),
           ((650000.0, 7200000.0, 10.0), 0.5, 2.0 ** 40), ((0.0, 0.0, 2.0 ** 20), 2.0 ** 24, 2.0 ** 60)]


def pointspec(c):
    r = {-3, -2, -1, 0, 1, 2, 4} if THOROUGH else {-2, -1, 0, 1, 3}
    return c.tlc("PointField", constants=dict(Range=r, Masses={-2, 3}), invariants=INVS)


def check(c):
    import harmonica as hm

    spec = pointspec(c)
    defs = {k["field"]: k for k in spec.cases if k["kind"] == "def"}
    cases = [k for k in spec.cases if k["kind"] == "case"]
    # 1. every enumerated offset, exact rational expectation
    for field, d in sorted(defs.items()):
        for mass in sorted({k["mass"] for k in cases}):
            ks = [k for k in cases if k["field"] == field and k["mass"] == mass]
            off = np.array([k["off"] for k in ks], dtype=float)
            for origin, scale, factor in REGIMES:
                obs = tuple(origin[i] + scale * off[:, i] for i in range(3))
                pts = tuple([o] for o in origin)
                want = np.array([L(k["num"]) / np.sqrt(L(k["r2"])) ** k["rpow"] for k in ks])
                nder = (d["unit"] > 0) + (d["unit"] > 5)
                want = want * G * L(factor) / L(scale) ** (1 + nder) * L(10) ** d["unit"]
                for par in (True, False):
                    got = c.call(f"point_gravity {field}", hm.point_gravity, obs, pts, [mass * factor], field, parallel=par)
                    if got is not None:
                        c.close(got, want, f"point_gravity {field} (mass {mass} x {factor}, scale {scale}, parallel={par})", rtol=1e-11,
                                atol=float(np.abs(want).max()) * 1e-15, off=off)
            c.validated(len(ks), field, dict(field=field, off=ks[0]["off"], num=ks[0]["num"], r2=ks[0]["r2"]))
    # 2. random clouds of masses: sum of the specified terms
    g = rng(4)
    for rep in range(6 if THOROUGH else 2):
        ns, no = int(g.integers(2, 9)), int(g.integers(3, 40))
        pts = [g.uniform(-1e3, 1e3, ns), g.uniform(-1e3, 1e3, ns), g.uniform(-2e3, -1e2, ns)]
        ms = g.normal(0, 1e10, ns)
        obs = [g.uniform(-3e3, 3e3, no), g.uniform(-3e3, 3e3, no), g.uniform(-4e3, 2e3, no)]
        for field, d in sorted(defs.items()):
            env = {n: (np.asarray(o, L)[:, None] - np.asarray(p, L)[None, :]) for n, o, p in zip(("dx", "dy", "dz"), obs, pts)}
            env.update(G=L(G), m=np.asarray(ms, L)[None, :])
            terms = ev(d["term"], env) * L(10) ** d["unit"]
            want = terms.sum(1)
            got = c.call(f"point_gravity {field}", hm.point_gravity, obs, pts, ms, field)
            if got is not None:
                c.close(got, want, f"point_gravity {field} of {ns} masses", rtol=1e-11, scale=np.abs(terms).sum(1).astype(float),
                        obs=obs, pts=pts, ms=ms)
            c.validated(no, "random")
    # 3. spherical coordinates, with longitudes in every convention
    lons, lats = [0, 90, 180, 270, -90, -180, 360, 37.5, 359.0], [-90, -45, 0, 12.25, 90]
    for k in [k for k in spec.cases if k["kind"] == "sph"]:
        f = k["field"]
        src = (np.array([0.0, 90, 180, 77.0, 10.0]), np.array([0.0, 0, 30, -90, 89.0]), np.array([6.2e6, 6.0e6, 6.3e6, 5e6, 6.371e6]))
        ms = np.array([1e15, -2e15, 3e15, 1.5e15, 2e14])
        lo, la = (x.ravel() for x in np.meshgrid(lons, lats))
        for ra in (6.38e6, 7.1e6):
            obs = (lo, la, np.full(lo.shape, ra))
            if k["status"] == "unsupported":
                c.raises(f"spherical {f}", NotImplementedError, hm.point_gravity, obs, src, ms, f, coordinate_system="spherical")
                continue
            if k["status"] == "unknown":
                c.raises(f"spherical {f}", (ValueError, NotImplementedError), hm.point_gravity, obs, src, ms, f,
                         coordinate_system="spherical")
                continue
            e = lambda a: np.asarray(a, L)[:, None]  # noqa: E731
            s = lambda a: np.asarray(a, L)[None, :]  # noqa: E731
            env = dict(lon=e(obs[0]), lat=e(obs[1]), r=e(obs[2]), lonp=s(src[0]), latp=s(src[1]), rp=s(src[2]), m=s(ms), G=L(G))
            t = ev(k["term"], env) * L(10) ** k["unit"]
            for turn in (0, 360, -360):
                for sturn in (0, 360, -360):
                    for par in (True, False):
                        got = c.call(f"spherical {f}", hm.point_gravity, (obs[0] + turn, obs[1], obs[2]),
                                     (src[0] + sturn, src[1], src[2]), ms, f, coordinate_system="spherical", parallel=par)
                        if got is not None:
                            c.close(got, t.sum(1), f"spherical point_gravity {f}", rtol=1e-8, scale=np.abs(t).sum(1).astype(float))
            c.validated(lo.size * 9, "spherical")
    # right above and below a mass the distance is the difference of the radii, however close the point is
    for k in [k for k in spec.cases if k["kind"] == "sph" and k["status"] == "ok"]:
        for lon, lat in ((0.0, 0.0), (123.4, 0.0), (0.0, 90.0), (200.0, -90.0)):
            rp = np.round(g.uniform(6.3e6, 6.4e6, 12), 3)
            d = np.round(10.0 ** g.uniform(-0.3, 4, 12), 3) * np.where(np.arange(12) % 2, 1, -1)
            for a, b in zip(rp, rp + d):
                env = dict(lon=L(lon), lat=L(lat), r=L(b), lonp=L(lon), latp=L(lat), rp=L(a), m=L(2e6), G=L(G))
                got = c.call("spherical above a mass", hm.point_gravity, (lon, lat, b), ([lon], [lat], [a]), [2e6], k["field"], coordinate_system="spherical")
                if got is not None:
                    c.close(got, float(ev(k["term"], env) * L(10) ** k["unit"]), f"spherical point_gravity {k['field']} {b - a:.3f} m above the mass at latitude {lat}", rtol=1e-6, r=b, rp=a)
            c.validated(12, "radial")
    c.require("spherical")
    c.require("radial", 90)
    for f in defs:
        c.require(f, 100)
