"""Tesseroid layers: geometry and gravity after every history of Layer.tla."""
import warnings

import numpy as np

import bulk
from checks import layercommon as lc
from vlib import THOROUGH, rng


def geometry(c, hm, cases):
    kinds = [lc.Tess(hm), lc.Tess(hm), lc.Shells(hm)]
    for n, case in enumerate(cases):
        k = kinds[n % 3]
        ds = lc.replay(c, k, case, n)
        if ds is None:
            continue
        lc.geometry(c, k, ds, case)
        c.validated(1, case["op"], case if n == 3 else None)
    lc.bad_grids(c, kinds[0])


def gravity(c, hm, cases, field, par):
    kinds = [lc.Tess(hm), lc.Tess(hm), lc.Shells(hm)]
    for n, case in enumerate(cases):
        k = kinds[n % 3]
        obs = (k.x0 + np.array([-1.0, 5.0, 140.0]), k.y0 + np.array([5.0, -10.0, 40.0][:3]) * (1 if k.y0 < 0 else 0.5), np.array([6.39e6, 6.4e6, 6.6e6]))
        ds = lc.replay(c, k, case, n)
        if ds is None:
            continue
        lay = case["lay"]
        boxes, dens = lc.boxes(k, lay), lc.rho(lay["rho"])
        for thr in ("-1", "0", "11"):
            counts = np.array(lay["counts"][thr])
            kw = {} if thr == "-1" else {"thickness_threshold": float(thr) * k.unit}
            before = ds.copy(deep=True)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    got = ds.tesseroid_layer.gravity(obs, field, parallel=par, **kw)
                except Exception as e:  # noqa: BLE001
                    c.violation(f"layer gravity {field}: raised {e!r}", case=case)
                    continue
            c.true(before.identical(ds), f"layer gravity {field} modified the layer", case=case)
            want = hm.tesseroid_gravity(obs, boxes[counts], dens[counts], field, parallel=par) if counts.any() else np.zeros(3)
            scale = np.abs(hm.tesseroid_gravity(obs, boxes[counts], np.abs(dens[counts]), field, parallel=par)).max() if counts.any() else 0
            c.close(got, want, f"layer gravity {field} (threshold {thr}) against its {int(counts.sum())} tesseroids after {[t['op'] for t in case['trail']]}",
                    rtol=1e-9, atol=1e-9 * float(scale), case=case)
            if bool((np.isnan(dens) & ~np.isnan(boxes[..., 4]) & ~np.isnan(boxes[..., 5])).any()):
                c.true(len(w) > 0, "NaN density in a valid tesseroid without a warning", case=case)
            if not np.isnan(dens).any():
                c.true(not any("missing values" in str(x.message) for x in w), "warning about missing densities without any", case=case)
        c.validated(1, field)


def many(c, hm, plans):
    """Fine grids: the layer is its tesseroids, added up in pieces."""
    g = rng(72)
    for ny, nx in ((53, 47), (3, 701)) if THOROUGH else ((37, 31),):
        lon, lat = 10 + 0.05 * np.arange(nx), -20 + 0.03 * np.arange(ny)
        top, ref = 6.371e6 + g.uniform(-500, 500, (ny, nx)), 6.371e6 + g.uniform(-900, 0, (ny, nx))
        dens = g.normal(size=(ny, nx)) * 100
        top[g.random((ny, nx)) < 0.2] = np.nan
        where = g.random((ny, nx)) < 0.1
        lay = c.call("tesseroid_layer", hm.tesseroid_layer, (lon, lat), top, ref, properties={"density": np.where(where, np.nan, dens)})
        if lay is None:
            continue
        n = ny * nx
        ee, nn = np.meshgrid(lon, lat)
        boxes = np.stack([ee - 0.025, ee + 0.025, nn - 0.015, nn + 0.015, np.fmin(top, ref), np.fmax(top, ref)], axis=-1).reshape(n, 6)
        keep = (~np.isnan(top) & ~where).ravel()
        obs = (np.array([10.3, 11.0, 9.0]), np.array([-19.5, -20.3, -19.0]), np.array([6.4e6, 6.38e6, 6.5e6]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = c.call("layer gravity", lay.tesseroid_layer.gravity, obs, "g_z", parallel=False)
        if got is None:
            continue
        want, size = bulk.added(lambda q: hm.tesseroid_gravity(obs, q[0][q[2]], q[1][q[2]], "g_z", parallel=False), (boxes, dens.ravel(), keep), plans[n])
        c.close(got, want, f"layer gravity of {ny} by {nx} tesseroids against pieces", rtol=1e-8, scale=float(size.max()))
        c.validated(1, "bulk")


def overlap(c, hm):
    """Layers may go around the globe once, not more."""
    for nlon, step, ok in ((36, 10.0, True), (37, 10.0, False), (4, 90.0, True), (5, 90.0, False), (24, 15.0, True), (25, 15.0, False), (30, 11.0, True), (33, 11.0, False)):
        for start in (0.0, -180.0, 5.0):
            for flip in (1, -1):
                lon = (start + step * np.arange(nlon))[::flip]
                args = ((lon, np.array([0.0, 1.0])), np.full((2, nlon), 6.4e6), 6.3e6)
                if ok and nlon * step < 360:
                    c.call(f"tesseroid_layer of {nlon} columns of {step}", hm.tesseroid_layer, *args)
                elif not ok:
                    c.raises(f"tesseroid_layer of {nlon} columns of {step}", ValueError, hm.tesseroid_layer, *args)
                c.validated(1, "overlap")


def check(c):
    import harmonica as hm

    ex, si = lc.spec(c, 13)
    pick = si[: 4000 if THOROUGH else 700] + ex[: 6000 if THOROUGH else 400]
    q = len(pick)
    m = q // 2 if THOROUGH else 150
    plans = bulk.plans(c, [37 * 31, 53 * 47, 3 * 701], pieces=(97, 211))
    c.parts(lambda s: geometry(s, hm, pick), lambda s: gravity(s, hm, pick[:m], "g_z", False), lambda s: gravity(s, hm, pick[m:2 * m], "potential", False),
            lambda s: gravity(s, hm, pick[:30], "g_z", True), lambda s: overlap(s, hm), lambda s: many(s, hm, plans))
    for f in ("g_z", "potential"):
        c.require(f, 50)
    for op in lc.OPS:
        c.require("edit:" + op, 20)
