"""Magnetic angles and vectors: Directions.tla replayed on the conversion functions."""
import numpy as np

import bulk
from vlib import THOROUGH, ev, rng

L = np.longdouble


def shapes(n):
    return [(n,), (1, n), (n, 1), (2, n // 2), (n // 2, 2), (2, 1, n // 2)]


def check(c):
    import harmonica as hm

    r = c.tlc("Directions", constants=dict(Range="-3..3" if THOROUGH else "-2..2", Degrees="{15 * k : k \\in -24..24}" if THOROUGH else "{15 * k : k \\in -12..24}"),
              invariants=["Mirrors", "FlipSame", "Emit"])
    terms = [k for k in r.cases if k["kind"] == "def"][0]
    vectors = [k for k in r.cases if k["kind"] == "vector"]
    angles = list({str(k["v"]): k for k in r.cases if k["kind"] == "angles"}.values())

    def want_angles(e, n, u):
        env = dict(e=L(e) if np.isscalar(e) else e.astype(L), n=L(n) if np.isscalar(n) else n.astype(L), u=L(u) if np.isscalar(u) else u.astype(L))
        with np.errstate(all="ignore"):
            f, inc, dec = (ev(terms[q], env) for q in ("intensity", "inclination", "declination"))
        return f, inc, dec

    def want_vec(f, inc, dec):
        env = dict(f=np.asarray(f, dtype=L), inc=np.asarray(inc, dtype=L), dec=np.asarray(dec, dtype=L))
        return [ev(terms[q], env) for q in ("east", "north", "up")]

    def cast(v, how):
        return [float, int, np.float64, np.float32, lambda x: np.asarray(float(x))][how](v)

    def back(e, n, u, f, what):
        """From the angles of a vector back to the vector."""
        got = c.call("angles", hm.magnetic_vec_to_angles, e, n, u)
        if got is None:
            return
        vec = c.call("vector", hm.magnetic_angles_to_vec, *got)
        if vec is not None:
            for name, a, b in zip("enu", vec, (e, n, u)):
                c.close(a, np.asarray(b, dtype=float), f"{what}: component {name} after the way back", rtol=1e-10, scale=np.asarray(f, dtype=float))

    # --- vectors on the lattice: one by one, in every number type and both angle units
    for pos, k in enumerate(vectors):
        e, n, u = k["v"]
        f, inc, dec = (float(q) for q in want_angles(e, n, u))
        for how in range(5):
            if how == 3:
                tol = 1e-5
            else:
                tol = 1e-12
            args = [cast(q, how) for q in (e, n, u)]
            got = c.call("angles", hm.magnetic_vec_to_angles, *args)
            if got is None:
                continue
            c.close(got[0], f, f"intensity of {k['v']}", rtol=tol)
            c.close(got[1], np.degrees(inc), f"inclination of {k['v']}", rtol=tol, scale=90)
            if e or n:
                # declination -180 and 180 are the same direction
                d = (float(got[2]) - np.degrees(dec) + 180) % 360 - 180
                c.close(d, 0.0, f"declination of {k['v']} (got {got[2]!r})", atol=tol * 180)
                if not (e == 0 and n < 0):
                    c.true(k["dec"][0] - tol * 180 <= got[2] <= k["dec"][1] + tol * 180, f"declination of {k['v']} is {got[2]!r}, specified within {k['dec']}")
            c.equal(int(np.sign(got[1])), k["inc"], f"sign of the inclination of {k['v']}")
        got = c.call("angles in radians", hm.magnetic_vec_to_angles, float(e), float(n), float(u), degrees=False)
        if got is not None:
            c.close(got[0], f, "intensity", rtol=1e-12)
            c.close(got[1], inc, f"inclination of {k['v']} in radians", rtol=1e-12, scale=1)
            if (e or n) and not (e == 0 and n < 0):
                c.close(got[2], dec, f"declination of {k['v']} in radians", rtol=1e-12, scale=1)
        back(float(e), float(n), float(u), f, str(k["v"]))
        c.validated(1, "vector", k)
    # --- the same as arrays, including intensities of many orders of magnitude
    g = rng(403)
    n0 = 2 * (len(vectors) // 2)
    V = np.array([k["v"] for k in vectors[:n0]], dtype=float)
    for i, shape in enumerate(shapes(n0)):
        s = 10.0 ** g.uniform(-6, 9, n0) if i else np.ones(n0)
        e, n, u = (np.ascontiguousarray((V[:, j] * s).reshape(shape)) for j in range(3))
        if i == 3:
            e, n, u = (np.asfortranarray(q) for q in (e, n, u))
        keep = [q.copy() for q in (e, n, u)]
        f, inc, dec = want_angles(e, n, u)
        got = c.call("angles of arrays", hm.magnetic_vec_to_angles, e, n, u)
        if got is not None:
            c.close(got[0], f.astype(float), "intensities of an array", rtol=1e-12)
            c.close(got[1], np.degrees(inc.astype(float)), "inclinations of an array", rtol=1e-12, scale=90)
            sel = (e != 0) | (n > 0)
            c.close(np.asarray(got[2])[sel], np.degrees(dec.astype(float))[sel], "declinations of an array", rtol=1e-12, scale=90)
        back(e, n, u, f, f"array {shape}")
        c.true(all(np.array_equal(a, b) for a, b in zip(keep, (e, n, u))), "the conversion modified its arguments")
        c.validated(1, "vectors")
    # --- integer arrays, as read from files: values next to the largest of their type
    for dtype, top, tol in ((np.int64, 3e9, 1e-12), (np.int32, 2.1e9, 1e-12), (np.int32, 6e4, 1e-12), (np.int16, 3.2e4, 1e-6), (np.uint16, 6.5e4, 1e-6), (np.float32, 1e5, 1e-6)):
        e, n, u = ((np.abs(V[:, j]) if dtype is np.uint16 else V[:, j]) / np.abs(V).max() * top for j in range(3))
        e, n, u = (np.round(q).astype(dtype) for q in (e, n, u))
        keep = [q.copy() for q in (e, n, u)]
        f, inc, dec = want_angles(e, n, u)
        for degrees, unit in ((True, 180 / np.pi), (False, 1.0)):
            got = c.call("angles of integer arrays", hm.magnetic_vec_to_angles, e, n, u, degrees=degrees)
            if got is not None:
                c.close(got[0], f.astype(float), f"intensities of an array of {np.dtype(dtype)}", rtol=tol)
                c.close(got[1], unit * inc.astype(float), f"inclinations of an array of {np.dtype(dtype)}", rtol=tol, scale=2 * unit)
                sel = (e != 0) | (n > 0)
                c.close(np.asarray(got[2])[sel], unit * dec.astype(float)[sel], f"declinations of an array of {np.dtype(dtype)}", rtol=tol, scale=2 * unit)
        c.true(all(np.array_equal(a, b) for a, b in zip(keep, (e, n, u))), "the conversion modified its arguments")
        got = c.call("tfa of integer arrays", hm.total_field_anomaly, (e, n, u), -30, 40)
        if got is not None:
            env = dict(f=L(1), inc=L(-30), dec=L(40), be=e.astype(L), bn=n.astype(L), bu=u.astype(L))
            c.close(got, ev(terms["projection"], env).astype(float), f"total-field anomaly of arrays of {np.dtype(dtype)}", rtol=tol, scale=f.astype(float))
        if e.ndim == 1 and len(angles) and dtype is not np.float32:
            keep = [k["v"] for k in angles if abs(k["v"][0]) <= 90 and abs(k["v"][1]) < 400]
            ang = np.array(keep)
            big = np.round(np.linspace(0, top, len(ang))).astype(dtype)
            for how in (float, np.int32):
                got = c.call("vectors of integer intensities", hm.magnetic_angles_to_vec, big, ang[:, 0].astype(how), ang[:, 1].astype(how))
                if got is not None:
                    for name, a, b in zip("enu", got, want_vec(big.astype(float), ang[:, 0].astype(float), ang[:, 1].astype(float))):
                        c.close(a, b.astype(float), f"components {name} of intensities of {np.dtype(dtype)}", rtol=1e-12, scale=big.astype(float) + 1e-300)
        c.validated(1, "types")
    # --- angles: exact signs, any multiple of 15 degrees, and the same direction written otherwise
    for pos, k in enumerate(angles):
        inc, dec = k["v"]
        f = [1.0, 50000.0, 3][pos % 3]
        want = [float(q) for q in want_vec(f, inc, dec)]
        got = c.call("vector", hm.magnetic_angles_to_vec, f, *([inc, dec] if pos % 2 else [float(inc), np.float64(dec)]))
        if got is None:
            continue
        for name, a, b, s in zip("enu", got, want, k["signs"]):
            c.close(a, b, f"component {name} of intensity {f}, inclination {inc}, declination {dec}", rtol=1e-12, scale=f)
            if s:
                c.equal(int(np.sign(a)), s, f"sign of component {name} of inclination {inc}, declination {dec}")
        if -90 < inc < 90 and -180 < dec <= 180:
            res = c.call("angles", hm.magnetic_vec_to_angles, *got)
            if res is not None:
                c.close([res[0], res[1]], [float(f), float(inc)], "intensity and inclination after the way back", rtol=1e-10, scale=90)
                c.close((float(res[2]) - dec + 180) % 360 - 180, 0.0, "declination after the way back", atol=1e-9)
        c.validated(1, "angles", k)
    # --- almost vertical and almost horizontal directions keep their angles
    for pos in range(600 if THOROUGH else 150):
        off = float(10.0 ** g.uniform(-9, -1))
        inc = [90 - off, off - 90, off, -off][pos % 4]
        dec = float(g.uniform(-179.9, 180)) if pos % 8 < 4 else float(g.choice([0, 90, -90, 45, 135, -135, 180]))
        f = float(10.0 ** g.uniform(-2, 5))
        vec = c.call("vector", hm.magnetic_angles_to_vec, f, inc, dec)
        if vec is None:
            continue
        for name, a, b in zip("enu", vec, want_vec(f, inc, dec)):
            c.close(a, float(b), f"component {name} of intensity {f}, inclination {inc}, declination {dec}", rtol=1e-12, scale=f)
        # the horizontal part of the vector is known to a part of the intensity
        h = f * np.cos(np.radians(inc))
        e, n, u = h * np.sin(np.radians(dec)), h * np.cos(np.radians(dec)), -f * np.sin(np.radians(inc))
        wf, winc, wdec = (float(q) for q in want_angles(e, n, u))
        for res, arr in ((c.call("angles", hm.magnetic_vec_to_angles, e, n, u), False), (c.call("angles", hm.magnetic_vec_to_angles, np.array([e]), np.array([n]), np.array([u])), True)):
            if res is None:
                continue
            i1, i2, i3 = (float(np.asarray(q).ravel()[0]) for q in res)
            c.close(i1, wf, f"intensity of ({e}, {n}, {u})", rtol=1e-12)
            c.close(i2, np.degrees(winc), f"inclination of ({e}, {n}, {u})", rtol=1e-12, scale=90)
            if pos % 4 > 1:
                c.close(i2, np.degrees(winc), f"inclination of ({e}, {n}, {u})", rtol=1e-9)
            c.close((i3 - np.degrees(wdec) + 180) % 360 - 180, 0.0, f"declination of ({e}, {n}, {u})", atol=1e-9)
        c.validated(1, "extreme")
    # --- arrays and broadcasting of angles
    n1 = 2 * (len(angles) // 2)
    A = np.array([k["v"] for k in angles[:n1]], dtype=float)
    for i, shape in enumerate(shapes(n1)):
        inc, dec = A[:, 0].reshape(shape), A[:, 1].reshape(shape)
        f = g.uniform(0, 1e5, shape) if i % 2 else 4.0
        keep = inc.copy(), dec.copy(), np.array(f, copy=True)
        got = c.call("vectors", hm.magnetic_angles_to_vec, f, inc, dec)
        if got is not None:
            for name, a, b in zip("enu", got, want_vec(f, inc, dec)):
                c.close(a, np.broadcast_to(b.astype(float), shape), f"components {name} of arrays", rtol=1e-12, scale=np.broadcast_to(f, shape))
        c.true(np.array_equal(keep[0], inc) and np.array_equal(keep[1], dec) and np.array_equal(keep[2], f), "the conversion modified its arguments")
        c.validated(1, "angle arrays")
    # --- total-field anomaly: projection on the direction of the main field
    for i in range(200 if THOROUGH else 60):
        shape = [(), (7,), (3, 4), (2, 3, 2), (1,)][i % 5]
        b = [g.normal(size=shape) * 300 for _ in range(3)]
        if i % 7 == 6:
            b = [np.round(q).astype(int) for q in b]
        k = angles[int(g.integers(0, len(angles)))]
        varying = i % 3 == 2 and shape
        inc = g.uniform(-90, 90, shape) if varying else float(k["v"][0])
        dec = g.uniform(-180, 360, shape) if varying else (k["v"][1] if i % 2 else float(k["v"][1]))
        arg = tuple(float(q) for q in b) if shape == () else ([tuple(b), list(b), np.array(b)][i % 3])
        keep = [np.array(q, copy=True) for q in b]
        got = c.call("tfa", hm.total_field_anomaly, arg, inc, dec)
        if got is None:
            continue
        env = dict(f=L(1), inc=np.asarray(inc, dtype=L), dec=np.asarray(dec, dtype=L), be=np.asarray(b[0], dtype=L), bn=np.asarray(b[1], dtype=L), bu=np.asarray(b[2], dtype=L))
        want = ev(terms["projection"], env).astype(float)
        size = np.sqrt(sum(np.asarray(q, dtype=float) ** 2 for q in b))
        c.close(got, want, f"total-field anomaly (shape {shape}, inclination {inc if not varying else 'varying'})", rtol=1e-12, scale=size)
        c.true(all(np.array_equal(p, q) for p, q in zip(keep, b)), "total_field_anomaly modified the field")
        # along the main field the anomaly is the intensity of the anomalous field
        f = g.uniform(1, 1000, shape)
        d = hm.magnetic_angles_to_vec(f, inc, dec)
        got = c.call("tfa", hm.total_field_anomaly, d, inc, dec)
        if got is not None:
            c.close(got, f, "total-field anomaly of a field along the main field", rtol=1e-10)
        c.validated(1, "tfa")
    # --- long surveys
    n = 200003
    plan = bulk.plans(c, [n])[n]
    many = tuple(g.normal(size=n) * 3e4 for _ in range(3))
    many[0][::7] = 0
    ang = (np.abs(many[0]), g.uniform(-90, 90, n), g.uniform(-180, 360, n))
    bulk.mapped(c, "angles", lambda q: np.array(hm.magnetic_vec_to_angles(*q)), many, plan)
    bulk.mapped(c, "vectors", lambda q: np.array(hm.magnetic_angles_to_vec(*q)), ang, plan)
    bulk.mapped(c, "total-field anomaly", lambda q: hm.total_field_anomaly(q[:3], -30.0, 20.0), many, plan)
    bulk.mapped(c, "total-field anomaly along the line", lambda q: hm.total_field_anomaly(q[:3], q[3], q[4]), (*many, ang[1], ang[2]), plan)
    # --- very weak fields have directions as well
    for s in (1e-12, 1e-30, 1e-100):
        e, nn, u = (V[:, j] * s for j in range(3))
        f, inc, dec = want_angles(e, nn, u)
        got = c.call("angles of weak fields", hm.magnetic_vec_to_angles, e, nn, u)
        if got is not None:
            c.close(got[0], f.astype(float), f"intensities of fields of {s}", rtol=1e-12)
            c.close(got[1], np.degrees(inc.astype(float)), f"inclinations of fields of {s}", rtol=1e-12, scale=90)
            sel = (e != 0) | (nn > 0)
            c.close(np.asarray(got[2])[sel], np.degrees(dec.astype(float))[sel], f"declinations of fields of {s}", rtol=1e-12, scale=90)
        got = c.call("vectors of weak fields", hm.magnetic_angles_to_vec, s, ang[1][:50], ang[2][:50])
        if got is not None:
            for name, a, b in zip("enu", got, want_vec(s, ang[1][:50], ang[2][:50])):
                c.close(a, b.astype(float), f"components {name} of fields of {s}", rtol=1e-12, scale=s)
        c.validated(1, "weak")
    c.require("bulk", 4)
    c.require("vector", 100)
    c.require("angles", 200)
    c.require("tfa", 40)
    c.require("extreme", 100)
    c.require("vectors", 5)
    c.require("types", 6)
