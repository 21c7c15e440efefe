"""Adaptive discretization: recorded runs of the real algorithm validated against Discretize.tla."""
import numpy as np
from scipy.constants import G

import tesscommon as tc
from vlib import THOROUGH, rng

INV = ["Partition", "OnlyNeeded", "LeavesFine", "Confluent", "Capacity"]


def tla_nodes(nodes):
    return "{" + ", ".join("<<<<%d,%d>>,<<%d,%d>>,<<%d,%d>>>>" % tuple(n.ravel()) for n in nodes) + "}"


def module(runs):
    txt = ["---- MODULE RunData ----", "Runs == <<"]
    rows = []
    for r in runs:
        rows.append("[fine |-> %s, split |-> <<%s>>, leaves |-> %s, count |-> %d, limit |-> %d, error |-> %s, tight |-> %s]" % (
            tla_nodes(r["codes"][0]), ", ".join(tla_nodes(r["codes"][k]) for k in range(1, 8)), tla_nodes(r["leaves"]), r["count"], r["limit"],
            "TRUE" if r["error"] else "FALSE", "TRUE" if r["tight"] else "FALSE"))
    return "\n".join(txt) + "\n" + ",\n".join(rows) + "\n>>\n====\n"


def scene(g, i):
    """A tesseroid and an external point: sizes from degrees to metres, poles, wide ones, points anywhere around."""
    R = 6371e3
    kind = i % 8
    if kind == 0:
        w, dl, s, dp = g.uniform(-180, 170), g.uniform(1, 40), g.uniform(-80, 60), g.uniform(1, 20)
    elif kind == 1:  # touching a pole
        w, dl, dp = g.uniform(-180, 0), g.uniform(5, 300), g.uniform(0.5, 30)
        s = 90 - dp if g.random() < 0.5 else -90.0
    elif kind == 2:  # tiny
        w, dl, s, dp = g.uniform(-180, 359), g.uniform(1e-3, 0.05), g.uniform(-89, 88), g.uniform(1e-3, 0.05)
    elif kind == 3:  # wide
        w, dl, s, dp = g.uniform(-180, -1), g.uniform(170, 360), g.uniform(-90, 0), g.uniform(20, 90)
    elif kind == 4:  # elongated
        w, dl, s, dp = g.uniform(-180, 100), g.uniform(30, 200), g.uniform(-60, 60), g.uniform(0.1, 2)
    elif kind == 5:
        w, dl, s, dp = g.uniform(-180, 300), g.uniform(0.1, 2), g.uniform(-80, 0), g.uniform(20, 79)
    elif kind == 6:  # thick
        w, dl, s, dp = g.uniform(-180, 300), g.uniform(0.5, 5), g.uniform(-80, 60), g.uniform(0.5, 5)
    else:
        w, dl, s, dp = g.uniform(-180, 170), g.uniform(1, 30), g.uniform(-40, 10), g.uniform(1, 30)
    top = R + g.uniform(-2e5, 2e4)
    thick = g.uniform(1e6, 6e6) if kind == 6 else 10 ** g.uniform(2, 5.5)
    e = min(w + dl, 360.0)
    tess = np.array([w, e, s, min(s + dp, 90.0), top - thick, top])
    where = (i // 8) % 5
    mid = [(tess[0] + tess[1]) / 2, (tess[2] + tess[3]) / 2]
    lon, lat = g.uniform(w, e), g.uniform(tess[2], tess[3])
    size = max(100.0, R * np.radians(max(e - w, tess[3] - tess[2])))
    if where == 0:
        r = top + size * g.uniform(0.02, 0.3)
    elif where == 1:
        lon, lat = mid[0] + g.uniform(-3, 3) * (e - w), np.clip(mid[1] + g.uniform(-2, 2) * dp, -90, 90)
        r = top + size * g.uniform(0.05, 2)
    elif where == 2:  # below
        r = max(tess[4] - size * g.uniform(0.02, 0.3), 1000.0)
        if r >= tess[4]:
            r = top + size * 0.2
    elif where == 3:
        lon, lat, r = g.uniform(-180, 360), g.uniform(-90, 90), top + 10 ** g.uniform(3, 7)
    else:
        lon, lat, r = mid[0], mid[1], top + size * g.uniform(0.03, 0.5)
    if g.random() < 0.3:
        lon += 360 if lon < 0 else -360
    return (float(lon), float(lat), float(r)), tess


def record(c, tu, terms, n, salt):
    g = rng(salt)
    runs, i = [], 0
    while len(runs) < n:
        i += 1
        point, tess = scene(g, i)
        ratio = float(g.choice([0.5, 1.0, 1.0, 2.5, 2.5, 4.0]))
        radial = bool(i % 2)
        tr = tc.tree(terms, point, tess, ratio, radial, limit=500 if i % 10 else 3000)
        if tr is None or tr[1] < 1e-7:
            continue
        codes, _ = tr
        size = len(codes[0])
        if size < 4 and g.random() < 0.8:
            continue
        limit = max(1, [size, size + 5, 2 * size, size - 1, size // 2 + 1][len(runs) % 5])
        stack_size = [100, 400, 2000, 9, 100][(len(runs) // 5) % 5]
        stack = np.full((stack_size, 6), np.nan)
        small = np.full((limit, 6), np.nan)
        keep = tess.copy()
        rec = dict(codes=codes, limit=limit, error=False, tight=stack_size < 100, leaves=codes[0][:0], count=0, point=point, tess=tess, ratio=ratio, radial=radial)
        try:
            m = tu._adaptive_discretization(point, tess, ratio, stack, small, radial)
        except OverflowError:
            rec["error"] = True
        else:
            rec["count"] = int(m)
            nodes = tc.dyadic(tess, small[:m])
            if nodes is None:
                c.violation(f"the pieces of tesseroid {tess} seen from {point} (ratio {ratio}, radial {radial}) are not halves of halves of it", pieces=small[: min(m, 50)])
                continue
            rec["leaves"] = nodes
            if m > limit:
                c.violation(f"{m} pieces were reported with room for {limit}")
        c.true(np.array_equal(tess, keep), "the discretization modified the tesseroid")
        runs.append(rec)
        c.validated(1, "error" if rec["error"] else "run", dict(point=point, tess=tess, ratio=ratio, radial=radial, pieces=size))
        if not radial:
            c.validated(0, "flat")
    return runs


def validate(c, runs):
    res = c.tlc("DiscretizeTrace", invariants=["NotStuck"], files={"RunData.tla": module(runs)}, expect_reject=True, workers=1, heap="4g")
    return res.rejected


def check_traces(c, tu, terms, n, salt):
    runs = record(c, tu, terms, n, salt)
    for k in range(0, len(runs), 40):
        part = runs[k:k + 40]
        if validate(c, part) is None:
            continue
        for r in part:  # which one
            if validate(c, [r]) is not None:
                want = len(r["codes"][0])
                c.violation(f"discretization of {r['tess'].tolist()} seen from {r['point']} (ratio {r['ratio']}, radial {r['radial']}, room for {r['limit']} pieces): "
                            + (f"refused although {want} pieces are enough" if r["error"] else f"got {r['count']} pieces, the specification has {want}"
                               + ("" if r["count"] != want else ", but different ones")), tess=r["tess"], point=r["point"])
    return runs


def controls(c, tu, terms):
    """The trace specification refuses wrong records."""
    runs = [r for r in record(c, tu, terms, 14, 77) if not r["error"] and len(r["leaves"]) > 3]
    r = runs[0]
    missing = dict(r, leaves=r["leaves"][1:], count=r["count"] - 1)
    double = dict(r, count=r["count"] + 1)
    late = dict(r, error=True, limit=len(r["leaves"]) + 3, tight=False)
    silent = dict(r, limit=len(r["leaves"]) - 1)
    merged = dict(r, leaves=np.concatenate([r["leaves"][1:], np.zeros((1, 3, 2), dtype=int)]))
    for name, bad in dict(missing=missing, double=double, late=late, silent=silent, merged=merged).items():
        if validate(c, [bad]) is None:
            raise __import__("vlib").MachineryError(f"the trace specification accepted a wrong record ({name})")
        c.validated(1, "control")


def check_public(c, hm, terms, field, parallel):
    """tesseroid_gravity integrates over exactly these pieces, with the documented ratios, for several points and tesseroids at once."""
    g = rng(51 + len(field) + parallel)
    ratio = {k: v[1] / v[2] for k, v in terms["ratio"].items()}[field]
    groups = []
    i = 0
    while len(groups) < (16 if THOROUGH else 5):
        tess, pts, i = [], [], i + 7
        for j in range(4):
            p, t = scene(g, i + j)
            if t[0] >= -180:
                pts.append(p), tess.append(t)
        groups.append((pts, np.array(tess)))
    for radial in (False, True):
        for pts, tess in groups:
            rho = np.round(g.uniform(-3000, 3000, len(tess)))
            want, size, ok = np.zeros(len(pts)), np.zeros(len(pts)), np.ones(len(pts), dtype=bool)
            for a, p in enumerate(pts):
                for t, d in zip(tess, rho):
                    inside = t[4] < p[2] < t[5]
                    tr = None if inside else tc.tree(terms, p, t, ratio, radial, limit=4000)
                    if tr is None or tr[1] < 1e-7:
                        ok[a] = False
                        break
                    v = tc.quadrature(terms["kernel"][field], p, t, tr[0][0], lambda q, d=d: d, G)
                    want[a] += v
                    size[a] += abs(v)
            if not ok.any():
                continue
            coords = tuple(np.array([p[q] for a, p in enumerate(pts) if ok[a]]) for q in range(3))
            got = c.call("tesseroid_gravity", hm.tesseroid_gravity, coords, tess, rho, field, parallel=parallel, radial_adaptive_discretization=radial)
            if got is not None:
                c.close(got, want[ok], f"{field} of {len(tess)} tesseroids integrated over their pieces (radial {radial}, parallel {parallel})", rtol=1e-8, scale=size[ok],
                        tess=tess, coords=coords)
                c.validated(int(ok.sum()), f"{field}")
    # too many pieces: an error, never a value
    bad = [([0.0, 10.0, 0.0, 10.0, 6.3e6, 6.371e6], (5.0, 5.0, 6.371e6), True), ([0.0, 10.0, 0.0, 10.0, 6.371e6 - 1e-7, 6.371e6], (3.3, 4.1, 6.371e6), False),
           ([-20.0, 30.0, 40.0, 80.0, 6.2e6, 6.371e6], (30.0, 40.0, 6.371e6), True)]
    for t, p, radial in bad:
        try:
            v = hm.tesseroid_gravity(p, t, 100.0, field, parallel=parallel, radial_adaptive_discretization=radial)
        except Exception:  # noqa: BLE001
            c.validated(1, "overflow")
            continue
        c.violation(f"{field} of {t} at {p} needs more pieces than there is room for, but a value was returned: {v}")


def check(c):
    import harmonica as hm
    from harmonica._forward import _tesseroid_utils as tu

    r = c.tlc("Discretize", constants=dict(Axes="{1, 2, 3}", MaxLevel=1, Limit=100), invariants=INV + ["Emit"], properties=["Ends"])
    terms = r.cases[0]
    c.tlc("Discretize", constants=dict(Axes="{1, 2, 3}", MaxLevel=1, Limit=3), invariants=INV, properties=["Ends"])
    c.tlc("Discretize", constants=dict(Axes="{2}", MaxLevel=3, Limit=5), invariants=INV, properties=["Ends"])
    c.tlc("Discretize", constants=dict(Axes="{1, 2}", MaxLevel=3, Limit=40), invariants=INV, simulate=2000 if THOROUGH else 12, depth=80)
    jobs = [lambda s, k=k: check_traces(s, tu, terms, 400 if THOROUGH else 60, 500 + k) for k in range(4)]
    jobs += [lambda s: controls(s, tu, terms)]
    jobs += [lambda s, f=f, p=p: check_public(s, hm, terms, f, p) for f in ("potential", "g_z") for p in (True, False)]
    c.parts(*jobs)
    c.require("run", 60)
    c.require("error", 15)
    c.require("control", 5)
    c.require("potential", 10)
    c.require("g_z", 10)
    c.require("overflow", 8)
