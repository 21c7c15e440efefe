"""Bouguer slab: profiles of Bouguer.tla replayed on bouguer_correction."""
import numpy as np
import xarray as xr
from scipy.constants import G

import vlib
from vlib import THOROUGH, ev, rng

GAP = 99


def check(c):
    import harmonica as hm

    r = c.tlc("Bouguer", constants=dict(Heights="{-5, -1, 0, 1, 8}", Gap=GAP, Crusts="{3, 2}", Waters="{1, 0, 4}", MaxLen=4 if THOROUGH else 3),
              invariants=["Continuous", "Linear", "Land", "Sea", "Emit"])
    unit = float(ev(r.cases[0]["factor"], {"G": np.longdouble(G)}))
    g = rng(402)

    def slabs(k):
        return np.array([np.nan if v == GAP else v * unit for v in k["slab"]], dtype=float)

    for pos, k in enumerate(r.cases):
        topo = np.array([np.nan if v == GAP else v for v in k["topo"]], dtype=float)
        if not np.isnan(topo).any() and pos % 3 == 0:
            topo = topo.astype(["int8", int, "int16", "int32", "int64"][pos // 3 % 5])
        elif pos % 3 == 1:
            topo = topo.astype("float32")
        keep = topo.copy()
        # the slab is linear in the densities, that need not be whole numbers (nor Python floats)
        s = [1, 890.37, 0.25, np.float64(333.3)][pos // 2 % 4]
        got = c.call("bouguer", hm.bouguer_correction, topo, density_crust=k["crust"] * s, density_water=k["water"] * s)
        if got is None:
            continue
        c.close(got, slabs(k) * s, f"Bouguer correction of {k['topo']} ({topo.dtype}, crust {k['crust'] * s}, water {k['water'] * s})", rtol=1e-10 if topo.dtype != np.float32 else 1e-6, atol=1e-18)
        c.true(type(got) is np.ndarray, "the correction of an array is an array")
        c.true(np.array_equal(keep, topo, equal_nan=topo.dtype.kind == "f"), "bouguer_correction modified the topography", case=k["topo"])
        c.validated(1, "profile", dict(topo=k["topo"], slab=k["slab"]))
    # whole profiles stacked to grids and cubes; each row has to keep its own values
    full = [k for k in r.cases if len(k["topo"]) == (4 if THOROUGH else 3)]
    by = {}
    for k in full:
        by.setdefault((k["crust"], k["water"]), []).append(k)
    for (crust, water), ks in by.items():
        for trial in range(20 if THOROUGH else 8):
            pick = [ks[i] for i in g.integers(0, len(ks), 6)]
            topo = np.array([[np.nan if v == GAP else v for v in k["topo"]] for k in pick]) * 100.0
            want = np.array([slabs(k) for k in pick]) * 1000 * 100.0
            if trial % 4 == 3:
                topo, want = topo.reshape(2, 3, -1), want.reshape(2, 3, -1)
            if trial % 2:
                topo = np.asfortranarray(topo)
            if trial % 3 == 1 and not np.isnan(topo).any():
                topo = topo.astype(np.int16)
            s = float(g.choice([1.0, 0.9973, 1.00025]))
            kw, want = dict(density_crust=crust * 1000.0 * s, density_water=water * 1000.0 * s), want * s
            got = c.call("bouguer", hm.bouguer_correction, topo, **kw)
            if got is not None:
                c.close(got, want, f"Bouguer correction of a {topo.shape} array", rtol=1e-10, atol=1e-18)
                c.validated(1, "array")
            if topo.ndim != 2:
                continue
            coords = {"latitude": np.arange(topo.shape[0]) * 2.0, "longitude": -np.arange(topo.shape[1]) * 1.0, "height": (("latitude", "longitude"), topo * 0 + 3)}
            da = xr.DataArray(topo.copy(), coords=coords, dims=("latitude", "longitude"), name="topography", attrs={"units": "m"})
            keep = da.copy(deep=True)
            got = c.call("bouguer", hm.bouguer_correction, da, **kw)
            if got is None:
                continue
            c.true(isinstance(got, xr.DataArray) and got.dims == da.dims and set(got.coords) == set(da.coords) and
                   all(np.array_equal(got[q], da[q], equal_nan=True) for q in da.coords), "the correction of a grid is a grid on the same coordinates")
            c.close(np.asarray(got), want, "Bouguer correction of a grid", rtol=1e-10, atol=1e-18)
            c.true(da.identical(keep), "bouguer_correction modified the grid")
            c.validated(1, "grid")
            one = c.call("bouguer of a column", hm.bouguer_correction, da.isel(longitude=1), **kw)
            if one is not None:
                c.close(np.asarray(one), want[:, 1], "Bouguer correction of a column of a grid", rtol=1e-10, atol=1e-18)
    # default densities, random heights down to subnormal steps around zero
    h = np.concatenate([g.normal(size=200) * 4000, [0.0, -0.0, 1e-300, -1e-300, 1e-5, -1e-5, 9000, -11000]])
    got = c.call("bouguer", hm.bouguer_correction, h)
    if got is not None:
        c.close(got, np.where(h >= 0, 2670 * h, (2670 - 1040) * h) * unit, "Bouguer correction with default densities", rtol=1e-10, atol=1e-300)
        c.validated(1, "default")
    c.require("profile", 300)
    c.require("array", 20)
    c.require("grid", 10)
