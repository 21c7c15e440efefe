"""Replays the histories of Layer.tla on prism and tesseroid layers."""
import numpy as np

from vlib import THOROUGH, rng

NAN = 9999
INV = ["TypeOK", "Ordered", "Tiling", "Centred", "Emit"]
PROPS = ["SameCells", "Shrinks", "Geometry", "Keeps"]
# heights are in half units: surfaces may be stored as integers while references are fractional
VALUES = {-6, 0, 3, 8, NAN}
REFS = {-3, 0, 15}
OPS = {"create", "update-scalar", "update-array", "bad-surface", "bad-reference", "property", "property-transposed", "transpose", "flip-x", "flip-y", "cut-x", "cut-y", "thin-x"}


def spec(c, seed):
    k = dict(Values=VALUES, Refs=REFS, Densities={0, 100, -50, NAN}, Thresholds={-1, 0, 11})
    ex = c.tlc("Layer", constants=dict(k, Rows={2, 3}, Cols={2, 3}, MaxSteps=1, Alternate=False), invariants=INV, properties=PROPS)
    si = c.tlc("Layer", constants=dict(k, Rows={2, 3, 4}, Cols={2, 3, 5}, MaxSteps=6, Alternate=True), invariants=INV, properties=PROPS,
               simulate=600 if THOROUGH else 30, depth=7, seed=seed)
    return balanced(ex.cases), balanced(si.cases)


def balanced(cases):
    """The cases reordered so that every prefix holds about as many of each kind of last step."""
    by = {}
    for k in rng(77).permutation(len(cases)):
        by.setdefault(cases[k]["op"], []).append(cases[k])
    out, n = [], max(len(v) for v in by.values())
    for i in range(n):
        out += [v[i] for v in by.values() if i < len(v)]
    return out


class Prism:
    name, dims, unit = "prism", ("northing", "easting"), 0.5
    xs, ys = 1.0, 1.0
    x0, y0, h0 = 0.0, 0.0, 0.0

    def __init__(self, hm):
        self.make, self.acc = hm.prism_layer, lambda ds: ds.prism_layer

    def element(self, ds, ij):
        return ds.prism_layer.get_prism(ij)


class Wafer(Prism):
    """Layers far from the zero height that are much thinner than that, in projected coordinates."""
    unit, h0 = 2.0 ** -14, -5000.0
    xs, ys, x0, y0 = 25.0, 50.0, 450000.0, 7100000.0


class Tess:
    name, dims, unit = "tesseroid", ("latitude", "longitude"), 500.0
    xs, ys = 0.5, 0.25
    x0, y0, h0 = 100.0, -30.0, 6.371e6

    def __init__(self, hm):
        self.make, self.acc = hm.tesseroid_layer, lambda ds: ds.tesseroid_layer

    def element(self, ds, ij):
        return ds.tesseroid_layer.get_tesseroid(ij)


class Shells(Tess):
    """Thin tesseroids on fine grids across the antimeridian."""
    unit = 2.0 ** -8
    xs, ys, x0, y0 = 0.0625, 0.03125, 179.875, 60.0


def heights(k, v, integer=False):
    a = np.array(v, dtype=float)
    out = np.where(a == NAN, np.nan, k.h0 + k.unit * a)
    if integer and not np.isnan(out).any() and np.all(out == np.round(out)):
        return out.astype(int)
    return out


def rho(v):
    a = np.array(v, dtype=float)
    return np.where(a == NAN, np.nan, a)


def replay(c, k, case, flavour):
    """The dataset after the history, or None (already reported)."""
    trail = case["trail"]
    t0 = trail[0]
    x, y = k.x0 + k.xs * np.array(t0["x"], float), k.y0 + k.ys * np.array(t0["y"], float)
    coords = (x, y) if flavour % 2 else tuple(np.meshgrid(x, y))
    surface, dens = heights(k, t0["surface"], flavour % 3 == 0), rho(t0["rho"])
    ref = heights(k, t0["ref"], flavour % 6 == 0)
    ref = ref.item() if flavour % 4 else np.full(dens.shape, ref)
    extra = np.arange(dens.size, dtype=float).reshape(dens.shape)
    props = {"density": dens, "index": extra}
    kept = [a.copy() for a in (*coords, surface, dens, extra)]
    ds = c.call(f"{k.name}_layer", k.make, coords, surface, ref, props)
    if ds is None:
        return None
    for a, b in zip(kept, (*coords, surface, dens, extra)):
        c.true(np.array_equal(a, b, equal_nan=True), f"{k.name}_layer modified its arguments", case=case)
    parents = []
    for t in trail[1:]:
        op = t["op"]
        if op.split("-")[0] in ("flip", "cut", "thin", "transpose"):
            parents.append((ds, ds.copy(deep=True)))
        acc = k.acc(ds)
        if op.startswith("update"):
            s = heights(k, t["surface"], flavour % 3 == 0)
            r = heights(k, t["ref"], flavour % 3 == 1)
            r = r.item() if op == "update-scalar" else r
            keep = (s.copy(), np.array(r))
            try:
                acc.update_top_bottom(s, r)
            except Exception as e:  # noqa: BLE001
                c.violation(f"{k.name} layer {op}: raised {e!r}", case=case)
                return None
            c.true(np.array_equal(keep[0], s, equal_nan=True) and np.array_equal(keep[1], r, equal_nan=True), f"{op} modified its arguments", case=case)
        elif op.startswith("bad"):
            nr, nc = acc.shape
            good = heights(k, [[0] * nc] * nr)
            for shape in ((nr + 1, nc), (nr * nc,), (nr, 1), (1, nc)):
                bad = np.full(shape, k.h0)
                args = (bad, k.h0) if op == "bad-surface" else (good, bad)
                c.raises(f"{k.name} layer {op} of shape {shape} on {(nr, nc)}", ValueError, acc.update_top_bottom, *args)
        elif op == "property":
            ds["density"] = (k.dims, rho(t["rho"]))
        elif op == "property-transposed":
            ds["density"] = (k.dims[::-1], np.ascontiguousarray(rho(t["rho"]).T))
        elif op == "transpose":
            ds = ds.transpose(*(k.dims[::-1] if ds["index"].dims == k.dims else k.dims))
        elif op == "flip-y":
            ds = ds.isel({k.dims[0]: slice(None, None, -1)})
        elif op == "flip-x":
            ds = ds.isel({k.dims[1]: slice(None, None, -1)})
        elif op == "cut-y":
            ds = ds.isel({k.dims[0]: slice(1, None)})
        elif op == "cut-x":
            ds = ds.isel({k.dims[1]: slice(1, None)})
        elif op == "thin-x":
            ds = ds.isel({k.dims[1]: slice(0, None, 2)})
    for a, b in parents:
        c.true(a.identical(b), f"{k.name}_layer: changing a view of a layer changes the layer ({[t['op'] for t in trail]})", case=case)
    for t in trail:
        c.counts["edit:" + t["op"]] = c.counts.get("edit:" + t["op"], 0) + 1
    return ds


def boxes(k, lay):
    b = np.array(lay["cells"], float)
    out = np.empty_like(b)
    out[..., :2] = k.x0 + k.xs * b[..., :2]
    out[..., 2:4] = k.y0 + k.ys * b[..., 2:4]
    out[..., 4:] = heights(k, b[..., 4:])
    return out


def geometry(c, k, ds, case):
    lay = case["lay"]
    acc = k.acc(ds)
    want = boxes(k, lay)
    tag = f"{k.name} layer after {[t['op'] for t in case['trail']]}"
    c.close(ds.top.transpose(*k.dims).values, want[..., 5], f"{tag}: top", rtol=0, case=case)
    c.close(ds.bottom.transpose(*k.dims).values, want[..., 4], f"{tag}: bottom", rtol=0, case=case)
    c.close(ds["density"].transpose(*k.dims).values, rho(lay["rho"]), f"{tag}: property", rtol=0, case=case)
    nr, nc = len(lay["y"]), len(lay["x"])
    c.equal((tuple(acc.shape), int(acc.size), tuple(acc.dims)), ((nr, nc), nr * nc, k.dims), f"{tag}: shape, size, dims", case=case)
    c.close(acc.spacing, (k.ys * lay["spy"], k.xs * lay["spx"]), f"{tag}: spacing", rtol=1e-12, case=case)
    b = lay["bounds"]
    c.close(acc.boundaries, (k.x0 + k.xs * b[0], k.x0 + k.xs * b[1], k.y0 + k.ys * b[2], k.y0 + k.ys * b[3]), f"{tag}: boundaries", rtol=1e-12, case=case)
    for i in range(nr):
        for j in range(nc):
            c.close(k.element(ds, (i, j)), want[i, j], f"{tag}: element {(i, j)}", rtol=1e-12, case=case)


def bad_grids(c, k):
    """Creation with uneven coordinates or surfaces of the wrong shape is refused."""
    x, y = np.array([0.0, 1, 2, 3]), np.array([10.0, 12, 14])
    ok = np.full((3, 4), k.h0 + 5)
    for p in range(4):
        xb = x.copy()
        xb[p] += 0.25
        c.raises(f"{k.name}_layer with uneven columns ({p})", ValueError, k.make, (xb, y), ok, k.h0)
    for p in range(3):
        yb = y.copy()
        yb[p] -= 0.5
        c.raises(f"{k.name}_layer with uneven rows ({p})", ValueError, k.make, (x, yb), ok, k.h0)
    for shape in ((4, 3), (3, 3), (2, 4), (12,), ()):
        c.raises(f"{k.name}_layer with a surface of shape {shape}", ValueError, k.make, (x, y), np.full(shape, k.h0), k.h0)
        if shape:
            c.raises(f"{k.name}_layer with a reference of shape {shape}", ValueError, k.make, (x, y), ok, np.full(shape, k.h0))
    c.validated(4 + 3 + 9, "bad grids")
