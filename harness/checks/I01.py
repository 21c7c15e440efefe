"""ICGEM grid files: the files of GdfFile.tla, well formed and damaged, are written out and loaded."""
import io
import os
import pathlib
import tempfile
import warnings

import numpy as np

from vlib import THOROUGH, Stop, rng

SHAPES = "{<<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>}"
INVARIANTS = ["Untouched", "Faults", "Harmless", "Lost", "Located", "Emit"]
FIELDS = 'Families'
REQUIRED = ("latitude_parallels", "longitude_parallels", "number_of_gridpoints", "latlimit_south", "latlimit_north", "longlimit_west", "longlimit_east")


class File:
    """A case of the specification as text: positions become degrees, the further columns get random values."""

    def __init__(self, k, g):
        self.k = k
        step = float(g.choice([0.05, 0.1, 0.5, 1, 2, 5]))
        lat0 = float(np.round(g.uniform(-60, 40), 3))
        same = any(e[0] == "exchange names" for e in k["edits"])  # columns may then stand for one another
        lon0 = lat0 if same else float(np.round(g.uniform(-180, 300), 3))
        step_lon = step if same else float(g.choice([0.05, 0.25, 1, 3]))
        self.lon = lambda i: lon0 + step_lon * i
        self.lat = lambda j: lat0 + step * j
        n = len(k["rows"])
        self.cells = [[self.lon(r["i"]), self.lat(r["j"])] + [float(v) for v in g.normal(size=6) * 10.0 ** g.integers(-3, 6, 6)] for r in k["rows"]]
        self.header = {}
        lines = []
        height = ["{}.0000 m", "{}.25 m", "-{}.875 m", "{}.5"][int(g.integers(4))]
        for pos, h in enumerate(k["head"]):
            key, v = h["k"], h["v"]
            if key.startswith("latlimit"):
                text = f"{self.lat(v):.12f}"
            elif key.startswith("longlimit"):
                text = f"{self.lon(v):.12f}"
            elif key == "height_over_ell":
                text = height.format(v)
            elif key == "modelname":
                text = f"EIGEN-{v} (a  model)"
            else:
                text = str(v)
            if pos % 2 and key in REQUIRED:
                text += "   deg"
            self.header.setdefault(key, []).append(" ".join(text.split()))
            lines.append(f"{key:>20s}     {text}")
            if k["early"] == pos + 1:
                lines.append("")
        gap = [""] * k["gaps"]
        lines += ["" if g.integers(2) else "   "] * k["blanks"]
        lines += gap
        if k["names"] != ["none"]:
            lines.append("          " + "    ".join(k["names"]))
        lines += gap
        if k["units"] != ["none"]:
            lines.append("            " + "      ".join(k["units"]))
        lines += gap
        if k["ending"]:
            lines.append("end_of_head " + "=" * 20)
        for r, cells in zip(k["rows"], self.cells):
            words = [f"{v:.9f}" if c < 2 else repr(v) for c, v in enumerate(cells[:r["cells"]])]
            if not r["ok"]:
                words[int(g.integers(len(words)))] = "12.3x"
            lines.append("     " + " ".join(words))
        self.text = "\n".join(lines) + ("\n" if g.integers(2) else "")
        self.n = n


def judge(c, f, grid, what, columns=None):
    """The grid holds the value of every row at the row's own place."""
    k = f.k
    names = k["names"]
    use = range(len(names)) if columns is None else columns
    lat, lon = np.atleast_1d(grid["latitude"].values), np.atleast_1d(grid["longitude"].values)
    ok = c.true(grid["latitude"].dims == ("latitude",) and grid["longitude"].dims == ("longitude",) and lat.size * lon.size == f.n,
                f"{what}: {lat.size} latitudes and {lon.size} longitudes for {f.n} rows", text=f.text)
    if not ok:
        return
    ilat, ilon = names.index("latitude"), names.index("longitude")
    expected = [names[i] for i in use if names[i] not in ("latitude", "longitude")]
    has_height = "height_over_ell" in f.header
    c.equal(sorted(map(str, grid.data_vars)), sorted(expected + ["height_over_ell"] * has_height), f"{what}: variables", text=f.text)
    for cells in f.cells:
        y = np.flatnonzero(np.abs(lat - float(f"{cells[ilat]:.9f}")) < 1e-9)
        x = np.flatnonzero(np.abs(lon - float(f"{cells[ilon]:.9f}")) < 1e-9)
        if not c.true(y.size == 1 and x.size == 1, f"{what}: the place ({cells[ilon]}, {cells[ilat]}) of a row is not a node of the grid", text=f.text):
            return
        for i in use:
            if names[i] in ("latitude", "longitude"):
                continue
            v = grid[names[i]].transpose("latitude", "longitude").values
            if not c.equal(float(v[y[0], x[0]]), cells[i], f"{what}: value of {names[i]} at ({cells[ilon]}, {cells[ilat]})", text=f.text):
                return
    if has_height:
        h = np.unique(grid["height_over_ell"].values)
        c.true(grid["height_over_ell"].shape == (lat.size, lon.size) and h.size == 1 and float(h[0]) in [float(t.split()[0]) for t in f.header["height_over_ell"]],
               f"{what}: heights {h} for the header {f.header['height_over_ell']}", text=f.text)
    for key, texts in f.header.items():
        got = grid.attrs.get(key)
        c.true(any(got == t or (key in REQUIRED and got == t.split()[0]) for t in texts), f"{what}: attribute {key} is {got!r}, the header says {texts}", text=f.text)
    c.equal(grid.attrs.get("attributes"), " ".join(names[i] for i in use), f"{what}: the names of the columns in the attributes", text=f.text)


def one(c, load, f, folder, way, what):
    if way == 0:
        path = os.path.join(folder, "g.gdf")
    else:
        path = pathlib.Path(folder) / "h.gdf"
    if way == 2:
        source = io.StringIO(f.text)
    else:
        with open(path, "w") as out:
            out.write(f.text)
        source = path
    stream = None
    if way == 3:
        stream = source = open(path)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            grid, err = load(source), None
    except Stop:
        raise
    except Exception as e:  # noqa: BLE001
        grid, err = None, e
    finally:
        if stream is not None:
            stream.close()
    verdict = f.k["verdict"]
    if err is not None:
        c.true(verdict != "data", f"{what}: a complete file is refused with {type(err).__name__}: {str(err)[:150]}", text=f.text)
    elif verdict == "error":
        c.violation(f"{what}: data are returned from a file that contradicts itself", text=f.text)
    else:
        judge(c, f, grid, what)
    c.validated(1, verdict, dict(edits=f.k["edits"], verdict=verdict))


def replay(cases, salt):
    def part(c):
        import harmonica as hm

        g = rng(salt)
        with tempfile.TemporaryDirectory(prefix="gdf-") as folder:
            for pos, k in enumerate(cases):
                one(c, hm.load_icgem_gdf, File(k, g), folder, pos % 4, f"grid of {k['shape']} with edits {k['edits']}")
    return part


def columns(cases):
    """Only some columns are asked for."""
    def part(c):
        import harmonica as hm

        g = rng(604)
        for k in cases:
            if k["edits"]:
                continue
            f = File(k, g)
            for use in ((0, 1, 2), (0, 1, 3), (0, 1, 2, 3), (0, 1), (1, 0, 3), (3, 1, 0)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    grid = c.call(f"loading columns {use}", hm.load_icgem_gdf, io.StringIO(f.text), usecols=use)
                if grid is not None:
                    judge(c, f, grid, f"grid of {k['shape']}, columns {use}", columns=use)
                    c.validated(1, "columns")
    return part


def big(c):
    """Grids of ordinary sizes, whole circles and fine steps."""
    import harmonica as hm

    g = rng(605)
    for trial in range(12 if THOROUGH else 4):
        p, m = int(g.integers(2, 70)), int(g.integers(2, 70))
        k = dict(head=[dict(k=a, v=b) for a, b in (("modelname", 3), ("latlimit_north", p - 1), ("latlimit_south", 0), ("longlimit_west", 0),
                                                   ("longlimit_east", m - 1), ("latitude_parallels", p), ("longitude_parallels", m), ("number_of_gridpoints", p * m))],
                 blanks=1, early=0, names=["longitude", "latitude", "h_over_geoid", "sample_data"], units=["[deg.]"] * 4, ending=True, gaps=0, shape=[p, m], edits=[],
                 rows=[dict(i=i, j=p - 1 - j, cells=4, ok=True) for j in range(p) for i in range(m)], verdict="data", conflict=False)
        one(c, hm.load_icgem_gdf, File(k, g), tempfile.gettempdir(), 2, f"grid of {p} by {m}")
        # one row takes the place of another one: the number of rows and the area still agree
        if min(p, m) > 3:
            a, b = (m + 1) + g.permutation((p - 2) * m - 2)[:2]
            f = File(k, g)
            lines = f.text.rstrip("\n").split("\n")
            first = len(lines) - p * m
            lines[first + a] = lines[first + b]
            f.text = "\n".join(lines)
            f.k = dict(k, verdict="error")
            one(c, hm.load_icgem_gdf, f, tempfile.gettempdir(), 2, f"grid of {p} by {m} with one point missing and another repeated")
        c.validated(1, "large")


def check(c):
    c.assumptions.append("a mismatch of the declared area below the comparison tolerance of the reader (1e-5 relative) is not judged; values are whole words of the row")
    fam = '{"head", "skeleton", "columns", "rows"}'
    single = c.tlc("GdfFile", constants=dict(Shapes=SHAPES, MaxEdits=1, Families=fam), invariants=INVARIANTS).cases
    double = c.tlc("GdfFile", constants=dict(Shapes="{<<2, 2>>, <<2, 3>>, <<3, 2>>}" if THOROUGH else "{<<2, 2>>}", MaxEdits=2, Families=fam), invariants=INVARIANTS).cases
    far = c.tlc("GdfFile", constants=dict(Shapes="{<<2, 3>>, <<3, 2>>, <<3, 3>>, <<1, 4>>}", MaxEdits=4, Families=fam), invariants=INVARIANTS, simulate=40 if THOROUGH else 8, depth=6).cases
    if not THOROUGH:
        double = double[::2] if len(double) > 15000 else double
    rest = double + far
    n = 6
    c.parts(replay(single, 600), columns(single), big, *[replay(rest[i::n], 610 + i) for i in range(n)])
    c.require("data", 500)
    c.require("error", 3000)
    c.require("either", 300)
    c.require("columns", 30)
