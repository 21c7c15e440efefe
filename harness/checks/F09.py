"""Rejection of inconsistent requests: every request of ForwardInputs.tla is sent to the real models."""
import warnings

import numpy as np

from vlib import THOROUGH

NS = 3


def build(hm, r):
    """(call, valid reference or None) for a request."""
    mod = r["model"]
    k = np.arange(NS + 1)
    obs = (np.array([2.0, -60.0]), np.array([300.0, 4.0]), np.array([500.0, 450.0]))
    fields = {"point": "g_z", "point-spherical": "g_z", "dipole": "b", "prism": "g_n", "prism-magnetic": "b_e", "tesseroid": "potential", "layer": "g_e"}
    field = {"ok": fields[mod], "unknown": "g_x", "unsupported": "g_n"}[r["field"]]
    strengths = {"s1": 5.0 + k, "s2": -2.0 + k, "s3": 1.5 * k, "s4": 1.0 + k}

    def vec():
        v = [strengths[s][: r["size"][s]] for s in ("s1", "s2", "s3")]
        if r["comps"] == 2:
            return tuple(v[:2])
        if r["comps"] == 4:
            return (*v, v[0])
        return tuple(v)

    kw = {"disable_checks": True} if r["disable"] else {}
    if mod in ("point", "point-spherical", "dipole"):
        geo = {"e": 10.0 * k, "n": 5.0 - 7.0 * k, "u": -100.0 - k}
        if mod == "point-spherical":
            geo = {"e": 10.0 * k, "n": 5.0 - 7.0 * k, "u": 6.3e6 - k}
            obs = (obs[0], obs[1] / 4, obs[2] + 6.4e6)
        pts = tuple(geo[a][: r["size"][a]] for a in "enu")
        if mod == "dipole":
            return lambda: hm.dipole_magnetic(obs, pts, vec(), field, parallel=False, **kw)
        system = "cartesian" if mod == "point" else "spherical"
        if r["system"] == "unknown":
            system = "geodetic"
        return lambda: hm.point_gravity(obs, pts, 1e9 * strengths["s1"][: r["size"]["s1"]], field, coordinate_system=system, parallel=False)
    if mod == "layer":
        layer = hm.prism_layer((np.arange(3.0), np.arange(2.0)), np.ones((2, 3)), -1.0, {"density": np.ones((2, 3))})
        return lambda: layer.prism_layer.gravity(obs, field, parallel=False)
    boxes = []
    for j in range(NS + 1):
        b = [-50.0 + 20 * j, -40.0 + 20 * j, 10.0 * j, 10.0 * j + 8, -100.0 - j, -50.0 - j]
        if mod == "tesseroid":
            b = [20.0 * j, 20.0 * j + 9, 5.0 * j - 7, 5.0 * j - 3, 6.3e6 - j, 6.35e6 + j]
        if j < NS:
            for x in range(3):
                how = r["box"][j][x]
                if how == "swapped":
                    b[2 * x], b[2 * x + 1] = b[2 * x + 1], b[2 * x]
                elif how == "flat":
                    b[2 * x + 1] = b[2 * x]
        boxes.append(b)
    boxes = np.array(boxes[: r["size"]["geo"]])
    if mod == "tesseroid":
        obs = (obs[0], obs[1] / 4, obs[2] + 6.4e6)
        return lambda: hm.tesseroid_gravity(obs, boxes, strengths["s1"][: r["size"]["s1"]], field, parallel=False, **kw)
    if mod == "prism":
        return lambda: hm.prism_gravity(obs, boxes, strengths["s1"][: r["size"]["s1"]], field, parallel=False, **kw)
    return lambda: hm.prism_magnetic(obs, boxes, vec(), field, parallel=False, **kw)


def check(c):
    import harmonica as hm

    spec = c.tlc("ForwardInputs", constants=dict(NS=NS, MaxMut=3 if THOROUGH else 2), invariants=["NeverRejected", "Emit"], properties=["StaysWrong"])
    values = {}
    for case in spec.cases:
        r = case["req"]
        fn = build(hm, r)
        what = f"{r['model']} (field {r['field']}, system {r['system']}, sizes {r['size']}, {r['comps']} components, boxes " \
               f"{[[x for x in b] for b in r['box']] if 'geo' in r['size'] else ''}, disable_checks={r['disable']})"
        excs = tuple({"value": ValueError, "unsupported": NotImplementedError}[v] for v in case["verdict"] if v != "ok")
        if excs:
            if not c.raises(what, excs, fn):
                continue
            c.validated(1, "rejected")
        else:
            got = c.call(what, fn)
            if got is None:
                continue
            got = np.array(got)
            c.true(bool(np.isfinite(got).all()), f"{what}: not finite", got=got)
            key = str((r["model"], r["size"], r["box"]))
            if key in values:
                c.close(got, values[key], f"{what}: against the same request with the other setting of the checks", rtol=1e-12)
            values[key] = got
            c.validated(1, "accepted")
        c.counts[r["model"]] = c.counts.get(r["model"], 0) + 1
        c.counts["edit:" + case["last"]] = c.counts.get("edit:" + case["last"], 0) + 1
    # observation coordinates that cannot be combined
    pts, one = ([0.0], [0.0], [-9.0]), [1.0]
    bad = (np.zeros(2), np.zeros(3), np.zeros(2))
    for name, fn in (("point", lambda: hm.point_gravity(bad, pts, one, "g_z")), ("dipole", lambda: hm.dipole_magnetic(bad, pts, (one, one, one), "b")),
                     ("prism", lambda: hm.prism_gravity(bad, [[0, 1, 0, 1, -2, -1]], one, "g_z")),
                     ("prism-magnetic", lambda: hm.prism_magnetic(bad, [[0, 1, 0, 1, -2, -1]], (one, one, one), "b"))):
        c.raises(f"{name}: observation coordinates of sizes 2, 3, 2", (ValueError, IndexError), fn)
        c.validated(1, "coordinates")
    for m in ("point", "point-spherical", "dipole", "prism", "prism-magnetic", "tesseroid"):
        c.require(m, 20)
    for e in ("field", "system", "comps", "resize", "resize-all", "swapped", "flat", "disable"):
        c.require("edit:" + e, 5)
