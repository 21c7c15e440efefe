"""Acceptance of tesseroids and points: the requests of TessValid.tla sent to the real forward model."""
import numpy as np

from vlib import THOROUGH, rng


def real(t):
    return [float(q) for q in t[:4]] + [q * 1e6 for q in t[4:]]


def check(c):
    import harmonica as hm
    from harmonica._forward._tesseroid_utils import check_points_outside_tesseroids

    r = c.tlc("TessValid", constants=dict(
        Lons="{-181, -180, -10, 0, 10, 170, 190, 350, 360, 361}", Lats="{-91, -90, 0, 20, 90, 91}", Radii="{-1, 0, 6, 8}",
        PLons="{-355, -180, -5, 0, 5, 180, 185, 355, 360, 365}", PLats="{-90, 0, 10, 20, 90}", PRadii="{0, 6, 7, 8, 9}", MaxEdits=3 if THOROUGH else 2,
        StartTess="{<<-10, 10, 0, 20, 6, 8>>, <<170, 190, 0, 20, 6, 8>>, <<350, 360, -90, 20, 6, 8>>, <<350, 10, 0, 20, 6, 8>>, <<0, 360, -90, 90, 6, 8>>, <<-180, 180, 0, 90, 0, 6>>, <<190, 350, 0, 20, 6, 8>>}",
        StartPoints="{<<5, 10, 7>>, <<185, 10, 7>>, <<-5, 10, 9>>, <<355, 10, 7>>}"),
        invariants=["Volume", "Emit"], properties=["Convention"], heap="6g")
    cases = list({str((k["t"], k["p"])): k for k in r.cases}.values())
    g = rng(601)
    order = g.permutation(len(cases))
    by = {v: [cases[i] for i in order if cases[i]["v"] == v] for v in ("ok", "inside", "invalid")}
    # --- one tesseroid, one point: a zero density is enough for the checks to happen
    for v, ks in by.items():
        for pos, k in enumerate(ks[:20000 if THOROUGH else 2500]):
            t, p = real(k["t"]), (float(k["p"][0]), float(k["p"][1]), k["p"][2] * 1e6)
            field = ("potential", "g_z")[pos % 2]
            if pos % 3 == 1:
                t = np.array(t)
            elif pos % 3 == 2:
                t, p = np.array([t]), tuple(np.array([[q]]) for q in p)
            keep = np.array(t, copy=True)
            args = (hm.tesseroid_gravity, p, t, 0.0 if pos % 2 else [0.0], field)
            what = f"point {k['p']} and tesseroid {k['t']} ({v})"
            if v == "ok":
                got = c.call(what, *args, parallel=False)
                if got is not None:
                    c.close(got, np.zeros(np.broadcast(*p).shape), what, rtol=0)
            else:
                c.raises(what, ValueError, *args, parallel=False)
            c.true(np.array_equal(keep, np.array(t)), f"{what}: the tesseroid was modified")
            c.validated(1, v, k)
    # --- many at once: one bad pair is enough to refuse, wherever it is; none must be accepted
    for trial in range(1500 if THOROUGH else 250):
        nt, npt = int(g.integers(1, 6)), int(g.integers(1, 6))
        ts = [by["ok"][i] for i in g.integers(0, len(by["ok"]), nt)]
        tess = [k["t"] for k in ts]
        # points that are outside all of them
        pts = []
        while len(pts) < npt:
            q = by["ok"][int(g.integers(0, len(by["ok"])))]["p"]
            pts.append([q[0], q[1], 9])
        bad = trial % 3
        if bad == 1:
            k = by["inside"][int(g.integers(0, len(by["inside"])))]
            tess[int(g.integers(0, nt))] = k["t"]
            pts[int(g.integers(0, npt))] = k["p"]
        elif bad == 2:
            k = by["invalid"][int(g.integers(0, len(by["invalid"])))]
            tess[int(g.integers(0, nt))] = k["t"]
        T = np.array([real(t) for t in tess])
        P = tuple(np.array([float(p[j]) * (1e6 if j == 2 else 1) for p in pts]) for j in range(3))
        if trial % 4 == 0:
            P = tuple(q.reshape(1, -1) for q in P)
        what = f"points {pts} and tesseroids {tess}"
        if bad:
            c.raises(what, ValueError, hm.tesseroid_gravity, P, T, np.zeros(nt), "g_z", parallel=False)
            c.validated(1, "batch refused")
        else:
            c.call(what, hm.tesseroid_gravity, P, T, np.zeros(nt), "g_z", parallel=False)
            c.validated(1, "batch accepted")
    # --- one bad pair among very many
    for trial in range(60 if THOROUGH else 15):
        nt, npt = [(3, 200003), (5003, 1009), (100003, 17)][trial % 3]
        lon, lat = g.integers(0, 300, nt) * 1.0, g.integers(-80, 40, nt) * 1.0
        T = np.stack([lon, lon + 0.5, lat, lat + 0.5, np.full(nt, 6.1e6), np.full(nt, 6.2e6)], axis=1)
        P = [g.uniform(0, 360, npt), g.uniform(-90, 90, npt), g.uniform(6.2e6, 6.4e6, npt)]
        low = g.random(npt) < 0.8  # below the top of the tesseroids, but beside or under them
        P[1][low], P[2][low] = np.where(g.random(low.sum()) < 0.5, g.uniform(41, 90, low.sum()), g.uniform(-90, -80, low.sum())), g.uniform(6.0e6, 6.2e6, low.sum())
        low = g.random(npt) < 0.1
        P[1][low], P[2][low] = g.uniform(-80, 40, low.sum()), g.uniform(6.0e6, 6.1e6, low.sum())
        bad = trial % 5
        i, j = int(g.integers(nt)), int(g.integers(npt))
        if bad < 3:
            P[0][j], P[1][j], P[2][j] = T[i, 0] + 0.25 + 360 * (bad - 1) * (bad == 2), T[i, 2] + 0.25, 6.15e6
        elif bad == 3:
            T[i] = [(9.0, 8.0, 1, 2, 6.1e6, 6.2e6), (9.0, 10, 5, 2, 6.1e6, 6.2e6), (9.0, 10, 1, 2, 6.1e6, 6.0e6), (9.0, 10, 1, 91, 6.1e6, 6.2e6)][i % 4]
            if i % 4 == 0:
                T[i, 4:] = -1.0, 6.0e6
        what = f"{npt} points and {nt} tesseroids, {'one bad pair' if bad < 4 else 'all fine'}"
        args = (hm.tesseroid_gravity, tuple(P), T, np.zeros(nt), "g_z")
        if bad < 4:
            c.raises(what, ValueError, *args, parallel=trial % 2 == 0)
        else:
            c.call(what, *args, parallel=trial % 2 == 0)
        c.validated(1, "bulk")
    # --- just outside and just inside the surfaces, in floating point
    for k in by["inside"][:600 if THOROUGH else 150]:
        t = np.array([real(k["t"])])
        if t[0, 0] > t[0, 1]:
            continue
        p = [float(k["p"][0]), float(k["p"][1]), k["p"][2] * 1e6]
        side = int(g.integers(1, 3))
        b = t[0, 2 * side + int(g.integers(0, 2))]
        upper = b == t[0, 2 * side + 1]
        for x, inside in ((b, False), (np.nextafter(b, -np.inf if upper else np.inf), True), (np.nextafter(b, np.inf if upper else -np.inf), False)):
            q = list(p)
            q[side] = x
            if abs(q[1]) > 90:
                continue
            args = (check_points_outside_tesseroids, tuple(np.array([v]) for v in q), t)
            if inside:
                c.raises(f"point {q} just inside {t[0].tolist()}", ValueError, *args)
            else:
                c.call(f"point {q} on or just outside {t[0].tolist()}", *args)
            c.validated(1, "boundary")
    # --- numbers of densities and names of fields
    good = np.array([[0.0, 10.0, 0.0, 10.0, 6e6, 6.1e6], [20.0, 30.0, 0.0, 10.0, 6e6, 6.1e6], [20.0, 30.0, 10.0, 20.0, 6e6, 6.1e6]])
    far = (np.array([5.0, 7.0]), np.array([5.0, 7.0]), np.array([6.5e6, 6.5e6]))
    for nt in (1, 2, 3):
        for nd in (1, 2, 3, 4):
            for kind in (list, np.array):
                args = (hm.tesseroid_gravity, far, good[:nt], kind([0.0] * nd), "g_z")
                if nt != nd:
                    c.raises(f"{nd} densities for {nt} tesseroids", ValueError, *args, parallel=False)
                else:
                    c.call(f"{nd} densities for {nt} tesseroids", *args, parallel=False)
                c.validated(1, "densities")
    for field in ("g_x", "gz", "G_Z", "", "g_e", "potential ", None):
        c.raises(f"field {field!r}", (ValueError, TypeError), hm.tesseroid_gravity, far, good, np.zeros(3), field, parallel=False)
        c.validated(1, "field")
    c.require("ok", 300)
    c.require("inside", 100)
    c.require("invalid", 300)
    c.require("boundary", 200)
    c.require("bulk", 15)
    c.require("batch refused", 50)
