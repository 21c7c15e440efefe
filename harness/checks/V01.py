"""PyVista export: the meshes built in PrismMesh.tla replayed on prism_to_pyvista."""
import numpy as np

from vlib import THOROUGH, rng


def judge(c, hm, grid, k, scale, what):
    corners = np.array(k["corners"], dtype=float) * scale
    n = len(corners)
    if not c.equal(int(grid.n_cells), n, f"{what}: number of cells"):
        return
    c.equal(sorted(set(int(t) for t in grid.celltypes)), [12], f"{what}: VTK cell types (12 is the hexahedron)")
    vol = grid.compute_cell_sizes(length=False, area=False, volume=True)["Volume"]
    c.close(vol, np.array(k["volumes"], dtype=float) * scale ** 3, f"{what}: volumes of the cells", rtol=1e-9)
    for i in range(n):
        pts = np.asarray(grid.get_cell(i).points, dtype=float)
        if not c.equal(pts.shape, (8, 3), f"{what}: vertices of cell {i}"):
            return
        c.close(np.array(sorted(map(tuple, pts))), np.array(sorted(map(tuple, corners[i]))), f"{what}: corners of cell {i}", rtol=1e-12)
        # a valid hexahedron has the twelve edges of the box, each parallel to one axis, faces outward: any orientation-preserving numbering
        edges = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
        c.true(all(int((pts[a] != pts[b]).sum()) == 1 for a, b in edges), f"{what}: edges of cell {i} are not those of the prism", points=pts)
        det = np.linalg.det(np.array([pts[1] - pts[0], pts[3] - pts[0], pts[4] - pts[0]]))
        c.true(det > 0, f"{what}: cell {i} is turned inside out", points=pts)


def check(c):
    import harmonica as hm

    r = c.tlc("PrismMesh", constants=dict(Bounds="{<<0, 1, 0, 2, 0, 3>>, <<1, 3, 0, 2, 0, 3>>, <<-4, -2, -3, 1, -7, -2>>, <<0, 5, -1, 0, 2, 4>>}" if not THOROUGH else
                                          "{<<0, 1, 0, 2, 0, 3>>, <<1, 3, 0, 2, 0, 3>>, <<-4, -2, -3, 1, -7, -2>>, <<0, 5, -1, 0, 2, 4>>, <<2, 3, 5, 7, -1, 1>>}",
                                          Values="{-1, 7}", MaxPrisms=3),
              invariants=["Oriented", "AllCorners", "OwnPoints", "Emit"])
    g = rng(404)
    pick = [r.cases[i] for i in g.permutation(len(r.cases))[:2500 if THOROUGH else 300]]
    pick += [k for k in r.cases if len(k["prisms"]) == 1]
    for pos, k in enumerate(pick):
        scale = [1.0, 0.25, 1000.0, 1][pos % 4]
        prisms = np.array(k["prisms"], dtype=float) * scale
        if pos % 5 == 4 and scale == 1:
            prisms = prisms.astype(int)
        if pos % 7 == 3:
            prisms = np.asfortranarray(prisms)
        arg = prisms
        if len(prisms) == 1 and pos % 2:
            arg = prisms[0]
        elif pos % 6 == 1:
            arg = prisms.tolist()
        vals = np.array(k["props"], dtype=float)
        other = np.arange(len(vals)) * 1.5
        props = [None, {"density": vals}, {"density": vals, "x": other}, {"a": vals.tolist()}][pos % 4]
        if pos % 8 == 5 and props:  # parts of larger tables
            table = np.column_stack([vals + 100, vals, other])
            props = {name: table[:, 1 if v is vals or name == "a" else 2] for name, v in props.items()}
        elif pos % 8 == 6 and props:
            props = {name: np.asarray(v)[::-1].copy()[::-1] for name, v in props.items()}
        if pos % 9 == 4 and arg is prisms:
            arg = np.hstack([prisms, prisms])[:, 6:]
        keep = prisms.copy(), vals.copy()
        grid = c.call("mesh", hm.visualization.prism_to_pyvista, arg, props)
        if grid is None:
            continue
        judge(c, hm, grid, k, scale, f"mesh of {k['prisms']}")
        for name, v in (props or {}).items():
            if c.true(name in grid.cell_data, f"property {name} is missing"):
                c.close(grid.cell_data[name], np.atleast_1d(v), f"property {name} of the cells", rtol=0)
        c.equal(sorted(grid.cell_data.keys()), sorted(props or {}), "names of the cell properties")
        c.true(np.array_equal(keep[0], prisms) and np.array_equal(keep[1], vals), "prism_to_pyvista modified its arguments")
        c.validated(1, "mesh", k)
        n = len(prisms)
        if pos % 10 == 0:
            c.raises("a property with too many values", (ValueError,), hm.visualization.prism_to_pyvista, arg, {"d": np.ones(n + 1)})
            c.raises("a property given as a matrix", (ValueError,), hm.visualization.prism_to_pyvista, arg, {"d": np.ones((n, 1))})
            if n > 2:
                c.raises("a property with too few values", (ValueError,), hm.visualization.prism_to_pyvista, arg, {"ok": np.ones(n), "d": np.ones(n - 1)})
            c.validated(1, "refused")
    # scalar property of a single prism, and layers exported through their accessor
    for k in [q for q in r.cases if len(q["prisms"]) == 1]:
        grid = c.call("mesh", hm.visualization.prism_to_pyvista, [float(q) for q in k["prisms"][0]], {"density": float(k["props"][0])})
        if grid is not None:
            judge(c, hm, grid, k, 1.0, "mesh of a prism given as a list")
            c.close(grid.cell_data["density"], [float(k["props"][0])], "property of a single prism", rtol=0)
    for i in range(40 if THOROUGH else 12):
        ny, nx = int(g.integers(2, 5)), int(g.integers(2, 5))
        top, ref = g.uniform(1, 5, (ny, nx)), (-2.0 if i % 2 else g.uniform(-3, 0.5, (ny, nx)))
        if i % 3 == 0:
            top[0, 1] = np.nan
        if i % 4 == 1:
            top = np.where(top > 3, -5, top)
        dens = g.normal(size=(ny, nx))
        layer = hm.prism_layer((np.arange(nx) * 2.0, np.arange(ny) * 3.0), top, ref, properties={"density": dens, "sus": dens * 2})
        for drop in (True, False):
            grid = c.call("layer to pyvista", layer.prism_layer.to_pyvista, drop_null_prisms=drop)
            if grid is None:
                continue
            t, b = layer.top.values, layer.bottom.values
            idx = [(j, q) for j in range(ny) for q in range(nx) if not drop or not (np.isnan(t[j, q]) or np.isnan(b[j, q]) or t[j, q] == b[j, q])]
            prisms = [[2 * q - 1.0, 2 * q + 1.0, 3 * j - 1.5, 3 * j + 1.5, b[j, q], t[j, q]] for j, q in idx]
            if not c.equal(int(grid.n_cells), len(prisms), f"cells of an exported layer (drop {drop})"):
                continue
            for n, ((j, q), p) in enumerate(zip(idx, prisms)):
                want = np.array(sorted((x, y, z) for x in p[:2] for y in p[2:4] for z in p[4:]))
                got = np.array(sorted(map(tuple, np.asarray(grid.get_cell(n).points, dtype=float))))
                if np.isnan(want).any():
                    c.close(np.unique(got[:, :2], axis=0), np.unique(want[:, :2], axis=0), f"cell {n} of an exported layer", rtol=1e-12)
                else:
                    c.close(got, want, f"cell {n} of an exported layer", rtol=1e-12)
                c.close([grid.cell_data["density"][n], grid.cell_data["sus"][n]], [dens[j, q], 2 * dens[j, q]], f"properties of cell {n} of an exported layer", rtol=0)
            c.validated(1, "layer")
    # a great many prisms: every one has its own eight corners and its own values
    for n in (70001, 200003) if THOROUGH else (70001,):
        low = np.stack([g.uniform(-1e4, 1e4, n) for _ in range(3)])
        prisms = np.empty((n, 6))
        prisms[:, ::2], prisms[:, 1::2] = low.T, (low + g.uniform(1, 50, (3, n))).T
        dens = g.normal(size=n)
        grid = c.call(f"mesh of {n} prisms", hm.visualization.prism_to_pyvista, prisms, {"density": dens})
        if grid is not None and c.equal(int(grid.n_cells), n, "number of cells"):
            cells = np.asarray(grid.cells).reshape(-1, 9)
            c.true(bool((cells[:, 0] == 8).all()), "vertices of the cells")
            corner = np.asarray(grid.points, dtype=float)[cells[:, 1:]]
            got = np.stack([corner.min(axis=1), corner.max(axis=1)], axis=2).reshape(n, 6)
            c.close(got, prisms, f"bounds of {n} cells", rtol=1e-12)
            c.true(bool(((corner == corner.min(axis=1, keepdims=True)).sum(axis=1) == 4).all()), f"corners of {n} cells")
            c.close(grid.cell_data["density"], dens, f"property of {n} cells", rtol=0)
            c.validated(1, "many")
    c.require("mesh", 200)
    c.require("many", 1)
    c.require("refused", 10)
    c.require("layer", 12)
