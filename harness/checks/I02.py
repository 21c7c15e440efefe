"""Oasis Montaj grids: the files of GrdFile.tla are written, damaged and loaded."""
import os
import pathlib
import struct
import tempfile
import warnings
import zlib

import numpy as np

from vlib import THOROUGH, Stop, rng

DUMMY = {"b": -127, "B": 255, "h": -32767, "H": 65535, "i": -2147483647, "I": 4294967295}
BITS = {"b": 8, "h": 16, "i": 32}
FAULTS = '{"cut", "bytes", "more", "header", "shape", "block", "table", "colour", "order", "size"}'


def raw_values(t, n, g):
    """Stored numbers of a type, its extremes and dummies among them, and what they mean."""
    if t in "fd":
        v = g.normal(size=n) * 10.0 ** g.integers(-20, 20, n)
        special = [-1e32, -3e33, 0.0, -9e31, 1e32, 5.5]
    else:
        lo, hi = (0, DUMMY[t]) if t.isupper() else (-2 ** (BITS[t] - 1), 2 ** (BITS[t] - 1) - 1)
        v = g.integers(lo, hi, n, endpoint=True)
        special = [DUMMY[t], DUMMY[t] - 1, lo, hi, DUMMY[t] + (1 if t.islower() else -2), -DUMMY[t] if t.islower() else 127]
    v = list(v)
    for p in g.permutation(n)[:max(1, n // 2)]:
        v[int(p)] = special[int(g.integers(len(special)))]
    data = struct.pack(f"={n}{t}", *[float(x) if t in "fd" else int(x) for x in v])
    back = struct.unpack(f"={n}{t}", data)
    with np.errstate(over="ignore"):
        means = np.array([np.nan if (x <= -1e32 if t in "fd" else x == DUMMY[t]) else float(x) for x in back])
    return data, means


class File:
    def __init__(self, k, g):
        self.k = k
        t = k["type"] if k["type"] != "none" else {1: "b", 2: "h", 4: "i", 8: "d"}[k["size"]]
        n = len(k["cells"])
        self.step = (float(np.round(g.uniform(0.1, 50), 3)), float(np.round(g.uniform(0.1, 50), 3)))  # along easting, northing
        self.origin = (float(np.round(g.normal() * 1e5, 2)), float(np.round(g.normal() * 1e6, 2)))
        self.rotation = float(g.choice([30, -30, 90, 180, -90, 1.5, 123.25, 1e-3])) if k["turned"] else 0.0
        self.base, self.factor = (float(np.round(g.normal() * 100, 3)), float(np.round(g.uniform(0.01, 2000), 4)) * (1 if g.integers(4) else -1)) if k["scaled"] else (0.0, 1.0)
        data, raw = raw_values(t, n, g)
        self.values = raw / self.factor + self.base
        fault, arg = k["fault"][0], k["fault"][1:]
        width = k["size"]
        if fault == "cut":
            data = data[:arg[0] * width]
        elif fault == "bytes":
            data = data[:-arg[0]]
        elif fault == "more":
            data += data[:width]
        shape = [k["elements"], k["vectors"]]
        if fault == "shape":
            shape[arg[0] - 1] += arg[1]
        size, flag, order = k["size"] + (1024 if k["packed"] else 0), k["flag"], k["order"]
        if fault == "colour":
            flag = 3
        elif fault == "order":
            order = arg[0]
        elif fault == "size":
            size = arg[0]
        between = self.step if k["order"] == 1 else self.step[::-1]
        self.header = dict(n_bytes_per_element=size, sign_flag=flag, shape_e=shape[0], shape_v=shape[1], ordering=order, spacing_e=between[0], spacing_v=between[1],
                           x_origin=self.origin[0], y_origin=self.origin[1], rotation=self.rotation, base_value=self.base, data_factor=self.factor)
        head = struct.pack("=5i", size, flag, shape[0], shape[1], order)
        head += struct.pack("=5d", between[0], between[1], *self.origin, self.rotation) + struct.pack("=2d", self.base, self.factor)
        head += bytes(64) + struct.pack("=5i4fdi", 0, 1, 1, 3, n, 0.5, 1.5, 1.0, 1.0, 2.0, 7)
        head += bytes(512 - len(head))
        if k["packed"]:
            data = self.pack(data, k["blocks"], fault, arg, g)
        if fault == "header":
            head, data = head[:arg[0]], b""
        self.bytes = head + data

    @staticmethod
    def pack(data, blocks, fault, arg, g):
        cuts = [len(data) * b // blocks for b in range(blocks + 1)]
        parts = [g.bytes(16) + zlib.compress(data[a:b], int(g.integers(1, 10))) for a, b in zip(cuts, cuts[1:])]
        if fault == "lost block":
            del parts[arg[0] - 1]
        elif fault == "spoiled block":
            p = bytearray(parts[arg[0] - 1])
            p[-1] ^= 0x55
            parts[arg[0] - 1] = bytes(p)
        elif fault == "cut block":
            parts[arg[0] - 1] = parts[arg[0] - 1][:-int(g.integers(1, 8))]
        n = len(parts)
        table = 16 + 12 * n
        where, at = [], 512 + table
        for p in parts:
            where.append(at)
            at += len(p)
        out = bytes(8) + struct.pack("=2i", n, 1) + struct.pack(f"={n}q", *where) + struct.pack(f"={n}i", *[len(p) for p in parts]) + b"".join(parts)
        return out[:arg[0]] if fault == "table" else out


def judge(c, f, grid, what):
    k = f.k
    n_e, n_n = k["shape"]
    if not c.equal(grid.size, n_e * n_n, f"{what}: number of cells"):
        return
    import xarray as xr

    data, east, north = xr.broadcast(grid.reset_coords(drop=True), grid.coords["easting"], grid.coords["northing"])
    east, north = east.transpose(*data.dims), north.transpose(*data.dims)
    data, east, north = data.values.ravel(), east.values.ravel(), north.values.ravel()
    angle = np.radians(np.longdouble(f.rotation))
    small = 1e-6 * min(f.step)
    for (e, v), want in zip(k["cells"], f.values):
        x = f.origin[0] + float(e * np.longdouble(f.step[0]) * np.cos(angle) - v * np.longdouble(f.step[1]) * np.sin(angle))
        y = f.origin[1] + float(e * np.longdouble(f.step[0]) * np.sin(angle) + v * np.longdouble(f.step[1]) * np.cos(angle))
        at = np.flatnonzero((np.abs(east - x) < small) & (np.abs(north - y) < small))
        if not c.true(at.size == 1, f"{what}: no cell at ({x}, {y}), {e} steps east and {v} steps north of the origin", cells=k["cells"]):
            return
        if not c.close(data[at[0]], want, f"{what}: value of the cell {e} steps east and {v} steps north", rtol=1e-12, atol=1e-300):
            return
    if f.rotation == 0:
        c.equal(grid.dims, ("northing", "easting"), f"{what}: dimensions")
    for name, want in f.header.items():
        if not c.equal(grid.attrs.get(name), want, f"{what}: header field {name}"):
            return


def one(c, load, f, path, what):
    with open(path, "wb") as out:
        out.write(f.bytes)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            grid, err = load(path), None
    except Stop:
        raise
    except Exception as e:  # noqa: BLE001
        grid, err = None, e
    verdict = f.k["verdict"]
    if err is not None:
        c.true(verdict != "data", f"{what}: a complete file is refused with {type(err).__name__}: {str(err)[:150]}")
    elif verdict == "error":
        c.violation(f"{what}: data are returned from a damaged or unsupported file", header=f.header)
    else:
        judge(c, f, grid, what)
    c.validated(1, verdict, dict(fault=f.k["fault"], type=f.k["type"], order=f.k["order"], packed=f.k["packed"], verdict=verdict))


def describe(k):
    return f"{'packed ' if k['packed'] else ''}{k['size']}-byte cells (flag {k['flag']}), order {k['order']}, {k['shape']} cells, fault {k['fault']}"


def replay(cases, salt):
    def part(c):
        import harmonica as hm

        g = rng(salt)
        with tempfile.TemporaryDirectory(prefix="grd-") as folder:
            for pos, k in enumerate(cases):
                path = os.path.join(folder, "a.grd")
                one(c, hm.load_oasis_montaj_grid, File(k, g), pathlib.Path(path) if pos % 2 else path, describe(k))
    return part


def big(c):
    """Grids of ordinary sizes, every type and storage."""
    import harmonica as hm

    g = rng(655)
    with tempfile.TemporaryDirectory(prefix="grd-") as folder:
        for trial in range(72 if THOROUGH else 36):
            size, flag = [(1, 0), (1, 1), (2, 0), (2, 1), (4, 0), (4, 1), (4, 2), (8, 2), (8, 2)][trial % 9]
            order = 1 if trial // 9 % 2 else -1
            n_e, n_n = (int(v) for v in g.integers(2, 30, 2))
            elements, vectors = (n_e, n_n) if order == 1 else (n_n, n_e)
            cells = [((n % elements, n // elements) if order == 1 else (n // elements, n % elements)) for n in range(n_e * n_n)]
            k = dict(size=size, flag=flag, order=order, packed=trial // 18 % 2 == 1, shape=[n_e, n_n], turned=bool(g.integers(2)), scaled=bool(g.integers(2)), blocks=1 + trial % 7,
                     elements=elements, vectors=vectors, cells=cells, fault=["none"], type={(1, 0): "B", (1, 1): "b", (2, 0): "H", (2, 1): "h", (4, 0): "I", (4, 1): "i", (4, 2): "f", (8, 2): "d"}[size, flag], verdict="data")
            one(c, hm.load_oasis_montaj_grid, File(k, g), os.path.join(folder, "b.grd"), describe(k))
            c.validated(1, "large")


def check(c):
    c.assumptions.append("8-byte cells with an integer sign flag and bytes behind the last cell are left open by the format and only judged by position and value when read")
    cases = c.tlc("GrdFile", constants=dict(Shapes="{<<1, 1>>, <<1, 3>>, <<4, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>, <<4, 5>>}" if THOROUGH else "{<<1, 1>>, <<1, 3>>, <<4, 1>>, <<2, 3>>, <<3, 2>>}",
                                            Sizes="{1, 2, 4, 8}", Flags="{0, 1, 2}", Orders="{1, -1}", Blocks="{1, 2, 3}" if THOROUGH else "{1, 2}", Turned="BOOLEAN", Scaled="BOOLEAN",
                                            Faults=FAULTS), invariants=["Once", "All", "Contiguous", "Emit"]).cases
    n = 7
    c.parts(big, *[replay(cases[i::n], 650 + i) for i in range(n)])
    c.require("data", 400)
    c.require("error", 10000)
    c.require("large", 30)
