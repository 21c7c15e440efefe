"""Prism layers: gravity and export equal those of the explicit prisms, after every history of Layer.tla."""
import warnings

import numpy as np

import bulk
from checks import layercommon as lc
from vlib import THOROUGH, rng

FIELDS = ("potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz")


def gravity(c, hm, cases, fields, par):
    kinds = [lc.Prism(hm), lc.Prism(hm), lc.Wafer(hm)]
    places = (np.array([-3.3, 8.7, 40.0]), np.array([25.1, -3.0, 14.2]), np.array([30.0, -20.0, 7.6]))
    for n, case in enumerate(cases):
        k = kinds[n % 3]
        obs = (k.x0 + k.xs * places[0], k.y0 + k.ys * places[1], k.h0 + k.xs * places[2])
        ds = lc.replay(c, k, case, n)
        if ds is None:
            continue
        lay = case["lay"]
        boxes = lc.boxes(k, lay)
        field = fields[n % len(fields)]
        name = ("density", "rock")[n % 2]
        if name == "rock":
            ds = ds.rename({"density": "rock"})
        dens = lc.rho(lay["rho"])
        for thr in ("-1", "0", "11"):
            counts = np.array(lay["counts"][thr])
            kw = {} if thr == "-1" else {"thickness_threshold": float(thr) * k.unit}
            before = ds.copy(deep=True)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    got = ds.prism_layer.gravity(obs, field, density_name=name, parallel=par, **kw)
                except Exception as e:  # noqa: BLE001
                    c.violation(f"layer gravity {field}: raised {e!r}", case=case)
                    continue
            c.true(before.identical(ds), f"layer gravity {field} modified the layer", case=case)
            if counts.any():
                want = hm.prism_gravity(obs, boxes[counts], dens[counts], field, parallel=False)
                scale = np.abs(hm.prism_gravity(obs, boxes[counts], np.abs(dens[counts]), field, parallel=False)).max()
            else:
                want, scale = np.zeros(3), 0.0
            c.close(got, want, f"layer gravity {field} (threshold {thr}) against its {int(counts.sum())} prisms after {[t['op'] for t in case['trail']]}",
                    rtol=1e-9, atol=float(scale) * 1e-8, case=case)
            nan_valid = bool((np.isnan(dens) & ~np.isnan(boxes[..., 4]) & ~np.isnan(boxes[..., 5])).any())
            if nan_valid:
                c.true(len(w) > 0, "NaN density in a valid prism without a warning", case=case)
            if not np.isnan(dens).any():
                c.true(not any("NaN" in str(x.message) for x in w), "warning about NaN densities without any", case=case)
        c.validated(1, field, case if n == 1 else None)


def export(c, hm, cases):
    kinds = [lc.Prism(hm), lc.Wafer(hm)]
    for n, case in enumerate(cases):
        k = kinds[n // 2 % 2]
        ds = lc.replay(c, k, case, n)
        if ds is None:
            continue
        boxes = lc.boxes(k, case["lay"])
        valid = ~np.isnan(boxes[..., 4]) & ~np.isnan(boxes[..., 5])
        null = ~valid | (boxes[..., 4] == boxes[..., 5])
        for drop in (True, False):
            keep = ~null if drop else np.ones_like(null)
            if not keep.any() or (not drop and not valid.all()):
                continue
            before = ds.copy(deep=True)
            mesh = c.call("to_pyvista", ds.prism_layer.to_pyvista, drop_null_prisms=drop)
            if mesh is None:
                continue
            c.true(before.identical(ds), "to_pyvista modified the layer", case=case)
            if not c.equal(mesh.n_cells, int(keep.sum()), "number of exported prisms", case=case):
                continue
            got = np.array([mesh.get_cell(q).bounds for q in range(mesh.n_cells)])
            c.close(got, boxes[keep], f"exported prisms (drop_null_prisms={drop})", rtol=1e-6, atol=1e-6, case=case)
            dens = lc.rho(case["lay"]["rho"])
            if "density" in mesh.cell_data:
                c.close(np.array(mesh.cell_data["density"]), dens[keep], "exported densities", rtol=0, case=case)
            else:
                c.violation("density is not exported", case=case)
            c.close(np.array(mesh.cell_data["index"]), ds["index"].transpose(*k.dims).values[keep], "exported second property", rtol=0, case=case)
            c.validated(1, "export")


def many(plans, field, par):
    """Fine grids: the layer is its prisms, added up in pieces."""
    def part(c):
        import harmonica as hm

        g = rng(71)
        for ny, nx in ((307, 331), (2, 40009), (40009, 2)) if THOROUGH else ((307, 331), (3, 10007)):
            east, north = 1e5 + 50.0 * np.arange(nx), -3e5 + 20.0 * np.arange(ny)
            top, bottom = g.uniform(-10, 10, (ny, nx)), g.uniform(-30, 0, (ny, nx))
            dens = g.normal(size=(ny, nx)) * 100
            top[g.random((ny, nx)) < 0.1] = np.nan
            bottom[g.random((ny, nx)) < 0.1] = np.nan
            where = g.random((ny, nx)) < 0.05
            ref, thick = bottom, 8.0
            lay = c.call("prism_layer", hm.prism_layer, (east, north), top, ref, properties={"density": np.where(where, np.nan, dens)})
            if lay is None:
                continue
            n = ny * nx
            ee, nn = np.meshgrid(east, north)
            lo, hi = np.fmin(top, bottom), np.fmax(top, bottom)
            boxes = np.stack([ee - 25, ee + 25, nn - 10, nn + 10, lo, hi], axis=-1).reshape(n, 6)
            bad = np.isnan(top) | np.isnan(bottom)
            obs = (1e5 + np.array([10.0, 9e3, 4e3, 16e3]), -3e5 + np.array([3e3, 100.0, 5e3, -50.0]), np.array([15.0, 40.0, 300.0, 20.0]))
            for thr in (None, thick):
                counts = ~bad & ~where & (True if thr is None else (hi - lo >= thr))
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = c.call("layer gravity", lay.prism_layer.gravity, obs, field, parallel=par, thickness_threshold=thr)
                if got is None:
                    continue
                keep = counts.ravel()
                want, size = bulk.added(lambda q: hm.prism_gravity(obs, q[0][q[2]], q[1][q[2]], field, parallel=False) if q[2].any() else np.zeros(4),
                                        (boxes, dens.ravel(), keep), plans[n])
                c.close(got, want, f"layer gravity {field} of {ny} by {nx} cells (threshold {thr}) against its prisms in pieces", rtol=1e-8, scale=float(size.max()))
                c.validated(1, "bulk")
            for drop in (True, False):
                if not drop:
                    lay = lay.fillna(0.0)
                mesh = c.call("to_pyvista", lay.prism_layer.to_pyvista, drop_null_prisms=drop)
                if mesh is None:
                    continue
                keep = ~bad.ravel() if drop else np.ones(n, bool)
                if c.equal(int(mesh.n_cells), int(keep.sum()), f"exported cells of {ny} by {nx}"):
                    cells = np.asarray(mesh.cells).reshape(-1, 9)
                    corner = np.asarray(mesh.points, dtype=float)[cells[:, 1:]]
                    box = np.stack([corner.min(axis=1), corner.max(axis=1)], axis=2).reshape(-1, 6)
                    if drop:
                        c.close(box, boxes[keep], f"exported cells of {ny} by {nx}", rtol=1e-6, atol=1e-4)
                        c.close(mesh.cell_data["density"], np.where(where, np.nan, dens).ravel()[keep], "exported densities", rtol=0)
                    else:
                        c.close(box[:, :4], boxes[:, :4], f"exported cells of {ny} by {nx}", rtol=1e-6, atol=1e-4)
                    c.validated(1, "bulk")
    return part


def check(c):
    import harmonica as hm

    ex, si = lc.spec(c, 12)
    pick = si[: 6000 if THOROUGH else 800] + ex[: 8000 if THOROUGH else 400]
    q = len(pick) // 4
    plans = bulk.plans(c, [307 * 331, 3 * 10007, 2 * 40009])
    c.parts(many(plans, "g_z", True), many(plans, "potential", False), lambda s: gravity(s, hm, pick[:q], FIELDS[:3], False), lambda s: gravity(s, hm, pick[q:2 * q], FIELDS[3:5], False),
            lambda s: gravity(s, hm, pick[2 * q:3 * q], FIELDS[5:8], False), lambda s: gravity(s, hm, pick[3 * q:], FIELDS[8:], False),
            lambda s: gravity(s, hm, pick[: q // 2], ("g_z", "g_ee"), True), lambda s: export(s, hm, pick[:: 1 if THOROUGH else 4]))
    for f in FIELDS:
        c.require(f, 30)
    c.require("export", 50)
    c.require("bulk", 14)
    for op in lc.OPS:
        c.require("edit:" + op, 20)
