"""Shells of tesseroids: the partitions of Shell.tla replayed on tesseroid_gravity."""
import numpy as np
from scipy.constants import G

import vlib
from vlib import THOROUGH, ev, rng

L = np.longdouble
NLON, NLAT, NRAD = 24, 12, 2


def to_tess(blocks, radii):
    return np.array([[b[0] * 360 / NLON, b[1] * 360 / NLON, b[2] * 180 / NLAT - 90, b[3] * 180 / NLAT - 90, radii[b[4]], radii[b[5]]] for b in blocks])


def analytic(terms, field, inside, a, cc, rho, r):
    return float(ev(terms[field][1 if inside else 0], dict(G=L(G), rho=L(rho), a=L(a), c=L(cc), r=L(r))))


def check_shells(c, hm, terms, cases, salt, field, radial):
    """Sum over any partition = analytic field."""
    g = rng(salt)
    for pos, k in enumerate(cases):
        tol = 1e-3 if k["small"] else 2e-2 if field == "potential" else 5e-3
        R2 = [6371e3, 1737e3, 6371e3, 10.0][pos % 4]
        thick = R2 * 10 ** g.uniform(-4 if R2 > 100 else -2, -0.8)
        radii = [R2 - thick, R2 - thick * g.uniform(0.2, 0.8), R2]
        tess = to_tess(k["blocks"], radii)
        rho = float(g.choice([2670.0, -400.0, 1e3]))
        n = 5
        h = R2 * 10 ** g.uniform(-3.5 if not radial else -2.5, -0.3, n)
        lon = k["p"] * 360 / NLON + g.uniform(-7, 7, n)
        lat = g.uniform(-90, 90, n)
        lat[0] = [90, -90, 0, 15][pos % 4]
        cavity = np.arange(n) == 4
        r = np.where(cavity, radii[0] * (0.02 if thick < 0.02 * R2 and radial else g.uniform(0.3, 0.9)), R2 + h)
        got = c.call("shell", hm.tesseroid_gravity, (lon, lat, r), tess, np.full(len(tess), rho), field, parallel=bool(pos % 2), radial_adaptive_discretization=radial)
        if got is None:
            continue
        want = np.array([analytic(terms, field, bool(q), radii[0], R2, rho, x) for q, x in zip(cavity, r)])
        scale = abs(analytic(terms, field, False, radii[0], R2, rho, R2)) if field == "g_z" else 0
        what = f"{field} of a shell of {len(tess)} tesseroids (radial {radial})"
        c.close(got[~cavity], want[~cavity], what, rtol=tol, radii=radii, lon=lon, lat=lat, r=r, blocks=k["blocks"])
        c.close(got[cavity], want[cavity], what + " inside the cavity", rtol=2 * tol, scale=scale, radii=radii, lon=lon, lat=lat, r=r, blocks=k["blocks"])
        c.validated(1, "fine shell" if k["small"] else "coarse shell", dict(blocks=k["blocks"][:4], radii=radii))
        c.validated(0, "cavity")


def check_moves(c, hm, groups, salt, field):
    """Scenes that look the same from the point have the same field: conventions of longitude and rotations."""
    g = rng(salt)
    for pos, ks in enumerate(groups):
        R2 = 6371e3
        radii = [R2 - 3e5, R2 - 1e5, R2]
        off, lat, r = g.uniform(-7, 7), float(g.choice([g.uniform(-90, 90), 90.0, -90.0])), R2 + 10 ** g.uniform(4.5, 6.5)
        weights = {}
        ref = None
        turn = g.uniform(0, 3)  # rotate by something that is no multiple of the cells either
        for j, k in enumerate(ks):
            order = sorted(k["blocks"], key=lambda b: ((b[0] - k["p"]) % NLON, *b[1:]))
            rel = [((b[0] - k["p"]) % NLON, b[1] - b[0], *b[2:]) for b in order]
            rho = np.array([weights.setdefault(q, float(g.uniform(-3000, 3000))) for q in rel])
            tess = to_tess(order, radii)
            lon = k["p"] * 360 / NLON + off
            if j % 3 == 2 and tess[:, 1].max() + turn <= 360:
                tess[:, :2] += turn
                lon += turn
            got = c.call("moved scene", hm.tesseroid_gravity, (lon, lat, r), tess, rho, field, parallel=False)
            if got is None:
                continue
            alone = np.array([float(hm.tesseroid_gravity((lon, lat, r), t, d, field, parallel=False)) for t, d in zip(tess, rho)]) if ref is None else None
            if ref is None:
                ref, size = float(got), float(np.abs(alone).sum())
                c.close(got, alone.sum(), f"{field} of {len(tess)} tesseroids against their sum", rtol=1e-9, scale=size)
                continue
            c.close(got, ref, f"{field} after changing the longitude convention or rotating the scene ({len(tess)} tesseroids)", rtol=1e-8, scale=size, first=ks[0], now=k)
            c.validated(1, "moves", dict(p=k["p"], blocks=k["blocks"][:3]))


def check(c):
    import harmonica as hm

    small = c.tlc("Shell", constants=dict(NLon=NLON, NLat=NLAT, NRad=NRAD, Starts='{"whole", "sides", "halves", "uneven"}', MaxSteps=3 if THOROUGH else 2, Random="FALSE"),
                  invariants=["Cover", "Valid", "EmitDef", "EmitAll"], properties=["Seen"], heap="6g")
    terms = [k for k in small.cases if k.get("kind") == "def"][0]
    fine = c.tlc("Shell", constants=dict(NLon=NLON, NLat=NLAT, NRad=NRAD, Starts='{"fine"}', MaxSteps=14, Random="TRUE"), invariants=["Cover", "Valid", "EmitLast"],
                 simulate=40 if THOROUGH else 5, depth=15)
    g = rng(701)
    coarse = [k for k in small.cases if "blocks" in k]
    groups = {}
    for k in coarse:
        groups.setdefault(str(sorted(k["rel"])), {})[str((sorted(k["blocks"]), k["p"]))] = k
    groups = [list(v.values()) for v in groups.values() if len(v) > 3]
    if not groups:
        raise vlib.MachineryError("no scenes to compare")
    fines = fine.cases
    take = lambda seq, n: [seq[i] for i in g.permutation(len(seq))[:n]]  # noqa: E731
    jobs = []
    nf, nc, ng = (60, 400, 60) if THOROUGH else (8, 30, 6)
    for f in ("potential", "g_z"):
        for radial in (False, True):
            some = take(fines, nf) + take(coarse, nc)
            jobs.append(lambda s, f=f, radial=radial, some=some: check_shells(s, hm, terms, some, 702 + radial, f, radial))
        jobs.append(lambda s, f=f: check_moves(s, hm, [take(q, 14) for q in take(groups, ng)], 710, f))
    c.parts(*jobs)
    c.require("fine shell", 15)
    c.require("coarse shell", 60)
    c.require("moves", 40)
