"""Sessions of Session.tla replayed on every public function: answers depend on the arguments only, nothing else changes."""
import copy
import os
import pathlib
import pickle
import shutil
import tempfile
import warnings

import numpy as np
import xarray as xr

from checks import igrfcommon
from vlib import THOROUGH, MachineryError, rng


# ------------------------------------------------------------------ objects
class Arrays:
    """A tuple of arrays."""

    def __init__(self, make):
        self.make = make

    def new(self, v):
        return tuple(np.array(q, dtype=float) for q in self.make(v))

    def edit(self, obj, v):
        for a, b in zip(obj, self.new(v)):
            a[...] = b

    def look(self, obj):
        return [np.array(q, copy=True) for q in obj]


class Array(Arrays):
    def new(self, v):
        return np.array(self.make(v), dtype=float)

    def edit(self, obj, v):
        obj[...] = self.new(v)

    def look(self, obj):
        return [obj.copy()]


class Labelled:
    """DataArrays and Datasets."""

    def __init__(self, make):
        self.make = make

    def new(self, v):
        return self.make(v)

    def edit(self, obj, v):
        other = self.make(v)
        if isinstance(obj, xr.Dataset):
            for name in obj.data_vars:
                obj[name].values[...] = other[name].values
            for name in obj.coords:
                if name not in obj.dims:
                    obj[name].values[...] = other[name].values
        else:
            obj.values[...] = other.values

    def look(self, obj):
        return flat(obj)


class Bodies:
    def __init__(self, hm):
        self.hm = hm

    def pars(self, v):
        return [dict(a=30.0 + v, b=20.0, c=10.0 - v, yaw=20.0 * v, pitch=-30.0, roll=50.0, center=(5.0, 3.0 * v, -80.0), density=1e3 * v, susceptibility=0.3 * v, remanent_mag=np.array([1.0, 2, 3]) * v),
                dict(a=7.0, b=7.0, c=7.0 + v, center=(-5.0, -3.0, -60.0 - v), density=-3e2, susceptibility=np.diag([0.1, 0.2 * v, 0.3]), remanent_mag=None)]

    def new(self, v):
        out = []
        for p in self.pars(v):
            p = dict(p)
            out.append(self.hm.Ellipsoid(p.pop("a"), p.pop("b"), p.pop("c"), **p))
        return out

    def edit(self, obj, v):
        for e, p in zip(obj, self.pars(v)):
            for k, q in p.items():
                setattr(e, k, q)

    def look(self, obj):
        return [np.asarray(q, dtype=float) for e in obj for q in (e.a, e.b, e.c, e.yaw, e.pitch, e.roll, e.center, e.density, e.susceptibility,
                                                                   np.nan if e.remanent_mag is None else e.remanent_mag)]


class Word:
    """A plain value: an edit can only be another value."""

    def __init__(self, values):
        self.values = values

    def new(self, v):
        return [copy.deepcopy(self.values[v])]

    def edit(self, obj, v):
        obj[0] = copy.deepcopy(self.values[v])

    def look(self, obj):
        return [np.array(str(obj[0]))]


class File:
    """A file: edits rewrite it."""

    def __init__(self, suffix, bytes_of):
        self.suffix, self.bytes_of = suffix, bytes_of
        self.dirs = []

    def new(self, v):
        d = pathlib.Path(tempfile.mkdtemp(prefix="h01-"))
        self.dirs.append(d)
        path = d / f"grid{self.suffix}"
        self.write(path, v)
        return path

    def write(self, path, v):
        path.write_bytes(self.bytes_of(v))
        os.utime(path, (1.7e9, 1.7e9))  # what counts is the content

    def edit(self, obj, v):
        self.write(obj, v)

    def look(self, obj):
        return [np.frombuffer(obj.read_bytes(), dtype=np.uint8).copy()]

    def clean(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)
        self.dirs.clear()


def flat(r):
    """A result as a list of plain arrays."""
    if r is None:
        return []
    if isinstance(r, xr.Dataset):
        return [q for name in sorted(map(str, r.variables)) for q in flat(r[name])]
    if isinstance(r, xr.DataArray):
        v = r.values
        return [np.array(v, copy=True)] + [np.array(r[k].values, copy=True) for k in sorted(r.coords) if k != r.name] if r.name not in r.dims else [np.array(v, copy=True)]
    if hasattr(r, "cell_data"):
        return [np.array(r.points), np.array(r.cells)] + [np.array(r.cell_data[k]) for k in sorted(r.cell_data.keys())]
    if hasattr(r, "columns"):
        return [np.array(r[k]) for k in r.columns]
    if isinstance(r, dict):
        return [q for k in sorted(r) for q in flat(r[k])]
    if isinstance(r, (tuple, list)):
        return [q for v in r for q in flat(v)]
    return [np.array(r, copy=True)]


def buffers(r):
    """The arrays of a result that its owner may write on."""
    if isinstance(r, xr.Dataset):
        return [r[n].values for n in r.data_vars]
    if isinstance(r, xr.DataArray):
        return [r.values]
    if hasattr(r, "cell_data"):
        return [np.asarray(r.cell_data[k]) for k in r.cell_data.keys()]
    if hasattr(r, "columns"):
        return []
    if isinstance(r, dict):
        return [q for v in r.values() for q in buffers(v)]
    if isinstance(r, (tuple, list)):
        return [q for v in r for q in buffers(v)]
    return [r] if isinstance(r, np.ndarray) and r.ndim else []


def same(a, b, tol=1e-10):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
            x, y = x.astype(float), y.astype(float)
            s = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 0.0
            if not np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def settings():
    """What belongs to the process and not to a call."""
    import random

    import numba

    state = np.random.get_state()
    return {"floating-point errors": np.geterr(), "random state of numpy": (state[0], state[1].tobytes(), *state[2:]), "random state": hash(random.getstate()),
            "warning filters": [repr(f) for f in warnings.filters], "working directory": os.getcwd(), "environment": dict(os.environ), "print options": repr(np.get_printoptions()),
            "number of threads": numba.get_num_threads(), "options of xarray": repr(dict(xr.get_options()))}


# ----------------------------------------------------------------- families
def families(hm):
    """name -> (objects, functions: name -> (objects taken, callable(objects..., parallel), has a parallel version))."""
    g0 = np.random.default_rng(99)
    base = g0.normal(size=(12, 40))

    def n(i, v, k):
        """k fixed random numbers for the version."""
        return np.random.default_rng([i, v]).normal(size=k)

    F = {}
    obs = Arrays(lambda v: (50 * n(1, v, 6), 50 * n(2, v, 6), 30 + np.abs(20 * n(3, v, 6))))
    sph = Arrays(lambda v: (60 * n(4, v, 5), 30 * n(5, v, 5), 6.39e6 + 1e4 * np.abs(n(6, v, 5))))
    pts = Arrays(lambda v: (50 * n(7, v, 4), 50 * n(8, v, 4), -20 - np.abs(20 * n(9, v, 4))))
    spts = Arrays(lambda v: (60 * n(10, v, 4), 30 * n(11, v, 4), 6.3e6 + 1e4 * np.abs(n(12, v, 4))))
    mass = Array(lambda v: 1e9 * n(13, v, 4))
    mom = Arrays(lambda v: tuple(1e4 * n(14 + k, v, 4) for k in range(3)))
    ob = dict(obs=obs, sph=sph, pts=pts, spts=spts, mass=mass, mom=mom)
    fs = {}
    for f in ("potential", "g_z", "g_en"):
        fs["point " + f] = (("obs", "pts", "mass"), lambda o, p, m, par, f=f: hm.point_gravity(o, p, m, f, parallel=par), True)
    fs["spherical"] = (("sph", "spts", "mass"), lambda o, p, m, par: hm.point_gravity(o, p, m, "g_z", coordinate_system="spherical", parallel=par), True)
    fs["dipole"] = (("obs", "pts", "mom"), lambda o, p, m, par: hm.dipole_magnetic(o, p, m, "b", parallel=par), True)
    fs["dipole b_u"] = (("obs", "pts", "mom"), lambda o, p, m, par: hm.dipole_magnetic(o, p, m, "b_u", parallel=par), True)
    F["points"] = (ob, fs)

    def boxes(v):
        lo, size = 40 * n(20, v, 9).reshape(3, 3), 1 + np.abs(20 * n(21, v, 9).reshape(3, 3))
        lo[:, 2] = -100 - np.abs(lo[:, 2])
        size[:, 2] = np.minimum(size[:, 2], 50)
        return np.stack([lo[:, 0], lo[:, 0] + size[:, 0], lo[:, 1], lo[:, 1] + size[:, 1], lo[:, 2], lo[:, 2] + size[:, 2]], axis=1)

    rho, mag = Array(lambda v: 1e3 * n(22, v, 3)), Arrays(lambda v: tuple(n(23 + k, v, 3) for k in range(3)))
    fs = {"prism " + f: (("obs", "boxes", "rho"), lambda o, p, m, par, f=f: hm.prism_gravity(o, p, m, f, parallel=par), True) for f in ("potential", "g_z", "g_nz")}
    for f in ("b", "b_e"):
        fs["prism " + f] = (("obs", "boxes", "mag"), lambda o, p, m, par, f=f: hm.prism_magnetic(o, p, m, f, parallel=par), True)
    fs["pyvista"] = (("boxes", "rho"), lambda p, m, par: hm.visualization.prism_to_pyvista(p, {"rho": m.copy()}), False)
    F["prisms"] = (dict(obs=obs, boxes=Array(boxes), rho=rho, mag=mag), fs)

    xy = Arrays(lambda v: (np.arange(4) * (10.0 + v) + v, np.arange(3) * (7.0 + v)))
    surf, ref, prop = Array(lambda v: -20 + 5 * n(30, v, 12).reshape(3, 4)), Array(lambda v: -60 + 5 * n(31, v, 12).reshape(3, 4)), Array(lambda v: 1e3 * n(32, v, 12).reshape(3, 4))

    def layer(v):
        return hm.prism_layer(xy.new(v if v == 0 else 1), surf.new(v), ref.new(v), {"density": prop.new(v)})

    def again(ly, s, r, par):
        ly = ly.copy(deep=True)
        ly.prism_layer.update_top_bottom(s, r)
        return ly

    fs = {"make layer": (("xy", "surf", "ref", "prop"), lambda c, s, r, p, par: hm.prism_layer(c, s, r, {"density": p.copy()}), False),
          "layer gravity": (("layer", "obs"), lambda ly, o, par: ly.prism_layer.gravity(o, "g_z", parallel=par), True),
          "layer facts": (("layer",), lambda ly, par: (ly.prism_layer.boundaries, ly.prism_layer.spacing, ly.prism_layer.shape, ly.prism_layer.get_prism((1, 2))), False),
          "layer pyvista": (("layer",), lambda ly, par: ly.prism_layer.to_pyvista(), False),
          "layer update": (("layer", "surf", "ref"), again, False)}
    F["prism layers"] = (dict(obs=obs, xy=xy, surf=surf, ref=ref, prop=prop, layer=Labelled(layer)), fs)

    def tess(v):
        w, s = 60 * np.tanh(n(40, v, 3)), 40 * np.tanh(n(41, v, 3))
        return np.stack([w, w + 3 + v, s, s + 2 + v, 6.3e6 + 1e3 * n(42, v, 3), 6.36e6 + 1e3 * n(43, v, 3)], axis=1)

    ll = Arrays(lambda v: (np.arange(4) * (2.0 + v / 4) + v, 5 + np.arange(3) * (1.0 + v / 4)))
    tsurf, tref = Array(lambda v: 6.37e6 + 500 * n(44, v, 12).reshape(3, 4)), Array(lambda v: 6.36e6 + 500 * n(45, v, 12).reshape(3, 4))

    def tlayer(v):
        return hm.tesseroid_layer(ll.new(v if v == 0 else 1), tsurf.new(v), tref.new(v), {"density": prop.new(v)})

    def tagain(ly, s, r, par):
        ly = ly.copy(deep=True)
        ly.tesseroid_layer.update_top_bottom(s, r)
        return ly

    fs = {"tesseroid g_z": (("sph", "tess", "rho"), lambda o, t, m, par: hm.tesseroid_gravity(o, t, m, "g_z", parallel=par), True),
          "tesseroid potential": (("sph", "tess", "rho"), lambda o, t, m, par: hm.tesseroid_gravity(o, t, m, "potential", parallel=par), True),
          "make tesseroid layer": (("ll", "tsurf", "tref", "prop"), lambda c, s, r, p, par: hm.tesseroid_layer(c, s, r, {"density": p.copy()}), False),
          "tesseroid layer gravity": (("tlayer", "sph"), lambda ly, o, par: ly.tesseroid_layer.gravity(o, "g_z", parallel=par), True),
          "tesseroid layer facts": (("tlayer",), lambda ly, par: (ly.tesseroid_layer.boundaries, ly.tesseroid_layer.spacing, ly.tesseroid_layer.get_tesseroid((1, 2))), False),
          "tesseroid layer update": (("tlayer", "tsurf", "tref"), tagain, False)}
    F["tesseroids"] = (dict(sph=sph, tess=Array(tess), rho=rho, ll=ll, tsurf=tsurf, tref=tref, prop=prop, tlayer=Labelled(tlayer)), fs)

    fs = {"ellipsoid gravity": (("obs", "bodies"), lambda o, b, par: hm.ellipsoid_gravity(o, b), False),
          "ellipsoid magnetic": (("obs", "bodies", "field"), lambda o, b, f, par: hm.ellipsoid_magnetic(o, b, f), False),
          "ellipsoid facts": (("bodies",), lambda b, par: [(e.rotation_matrix, e.get_surface(lon_size=5, lat_size=4), e.to_pyvista(u_res=5, v_res=4).points, np.frombuffer((str(e) + repr(e)).encode(), dtype=np.uint8).astype(int)) for e in b], False)}
    F["ellipsoids"] = (dict(obs=obs, bodies=Bodies(hm), field=Array(lambda v: 1e4 * n(50, v, 3))), fs)

    def grid(v):
        return xr.DataArray(np.random.default_rng([60, v]).normal(size=(8, 10) if v else (6, 7)), dims=("northing", "easting"),
                            coords=dict(northing=np.arange(8 if v else 6) * 2.5, easting=np.arange(10 if v else 7) * 2.0 + 3), name="field", attrs={"units": "nT"})

    num = Word([0.5, 1.0, 2.5, 4.0])
    inc = Word([10.0, 60.0, -35.0, 80.0])
    fs = {}
    for name in ("derivative_upward", "derivative_easting", "derivative_northing", "total_gradient_amplitude", "tilt_angle"):
        fs[name] = (("grid",), lambda d, par, name=name: getattr(hm, name)(d), False)
    for name in ("derivative_easting", "derivative_northing"):
        fs[name + " fft"] = (("grid",), lambda d, par, name=name: getattr(hm, name)(d, method="fft"), False)
    for name in ("upward_continuation", "gaussian_lowpass", "gaussian_highpass"):
        fs[name] = (("grid", "num"), lambda d, q, par, name=name: getattr(hm, name)(d, 5 * q[0]), False)
    fs["reduction_to_pole"] = (("grid", "inc"), lambda d, q, par: hm.reduction_to_pole(d, q[0], 10.0), False)
    F["transformations"] = (dict(grid=Labelled(grid), num=num, inc=inc), fs)

    data, wts = Array(lambda v: n(70, v, 9)), Array(lambda v: 0.5 + np.abs(n(71, v, 9)))
    at = Arrays(lambda v: (50 * n(72, v, 9), 50 * n(73, v, 9), n(74, v, 9)))
    sat = Arrays(lambda v: (20 * n(75, v, 9), 20 * n(76, v, 9), 6.4e6 + 100 * n(77, v, 9)))
    made = {}

    def fitted(cls, key, kw):
        """The same estimator in the whole session."""
        if key not in made:
            made[key] = cls(**kw)
        return made[key]

    def fit(cls, key, kw):
        def fn(c, d, w, o, par):
            e = fitted(cls, key, kw)
            e.fit(c, d, w)
            e.parallel = par
            return e.predict(o), e.coefs_, e.points_
        return fn

    fs = {"EquivalentSources": (("at", "data", "wts", "obs"), fit(hm.EquivalentSources, "es", dict(damping=0.1, depth=30)), True),
          "EquivalentSources default": (("at", "data", "wts", "obs"), fit(hm.EquivalentSources, "esd", dict(damping=0.1, block_size=15.0)), True),
          "EquivalentSourcesGB": (("at", "data", "wts", "obs"), fit(hm.EquivalentSourcesGB, "gb", dict(damping=0.1, depth=30, window_size=30.0, random_state=3)), True),
          "EquivalentSourcesSph": (("sat", "data", "wts", "sph"), fit(hm.EquivalentSourcesSph, "sph", dict(damping=0.1, relative_depth=1e5)), True),
          "memory": (("at",), lambda c, par: hm.EquivalentSources(depth=30).estimate_required_memory(c), False)}
    F["equivalent sources"] = (dict(obs=obs, sph=sph, at=at, sat=sat, data=data, wts=wts), fs)

    eu = Arrays(lambda v: (np.repeat(np.arange(4), 4) * 5.0 + v, np.tile(np.arange(4), 4) * 4.0 - v, np.abs(n(80, v, 16))))

    def field(v):
        e, m, u = eu.new(1 if v else 0)
        s = [8.0 + v, 5.0 - v, -12.0 - v]
        r = np.sqrt((e - s[0]) ** 2 + (m - s[1]) ** 2 + (u - s[2]) ** 2)
        return [1e3 * v / r ** 2 + 0.02 * n(81, v, 16)] + [-2e3 * v * (q - p) / r ** 4 for q, p in zip((e, m, u), s)]

    def euler(cls, key, kw):
        def fn(c, d, par):
            e = fitted(cls, key, kw)
            e.fit(c, d)
            return [np.array(q, dtype=float) for q in (e.location_, e.base_level_, e.covariance_)]
        return fn

    fs = {"EulerDeconvolution": (("eu", "field"), euler(hm.EulerDeconvolution, "ed", dict(structural_index=2)), False),
          "EulerInversion": (("eu", "field"), euler(hm.EulerInversion, "ei", {}), False)}
    F["euler"] = (dict(eu=eu, field=Arrays(lambda v: field(max(v, 1) if v else 1))), fs)
    F["euler"][0]["field"] = Arrays(lambda v: field(v + 1))

    geo = Arrays(lambda v: (60 * n(90, v, 5), 30 * np.tanh(n(91, v, 5)), 1e4 * n(92, v, 5)))
    dates = Word(["1999-01-01", "2022-05-07", "1931-12-30", "2026-03-01"])

    def model(d):
        if d not in made:
            made[d] = hm.IGRF14(d)
        return made[d]

    fs = {"IGRF": (("dates", "geo"), lambda d, o, par: hm.IGRF14(d[0]).predict(o), False),
          "kept IGRF": (("dates", "geo"), lambda d, o, par: model(d[0]).predict(o), False),
          "IGRF grid": (("dates",), lambda d, par: model(d[0]).grid((-10, 10, 20, 40), 1e3, shape=(3, 4)), False),
          "coefficients": (("dates",), lambda d, par: hm.IGRF14(d[0]).coefficients, False)}
    F["igrf"] = (dict(dates=dates, geo=geo), fs)

    topo = Array(lambda v: 800 * n(100, v, 12).reshape(3, 4))
    lay = Array(lambda v: 300 * np.abs(n(101, v, 12)).reshape(3, 4))
    topo2 = Labelled(lambda v: xr.DataArray(900 * n(102, v, 12).reshape(3, 4), dims=("latitude", "longitude"), coords=dict(latitude=[1.0, 2, 3], longitude=[4.0, 5, 6, 7])))
    vec = Arrays(lambda v: tuple(1e4 * n(103 + k, v, 6) for k in range(3)))
    ang = Arrays(lambda v: (3e4 + 1e4 * np.abs(n(106, v, 6)), 80 * np.tanh(n(107, v, 6)), 100 * n(108, v, 6)))
    fs = {"bouguer": (("topo",), lambda t, par: hm.bouguer_correction(t), False),
          "bouguer of a grid": (("topo2",), lambda t, par: hm.bouguer_correction(t), False),
          "moho": (("topo", "lay"), lambda t, q, par: hm.isostatic_moho_airy(t, layers={"s": (q, 2100.0), "i": (2 * q, np.full_like(q, 917.0))}), False),
          "moho of a grid": (("topo2",), lambda t, par: hm.isostatic_moho_airy(t, density_crust=2700), False),
          "vec to angles": (("vec",), lambda t, par: hm.magnetic_vec_to_angles(*t), False),
          "angles to vec": (("ang",), lambda t, par: hm.magnetic_angles_to_vec(*t), False),
          "total field anomaly": (("vec", "ang"), lambda t, q, par: hm.total_field_anomaly(t, q[1], q[2]), False)}
    F["corrections"] = (dict(topo=topo, lay=lay, topo2=topo2, vec=vec, ang=ang), fs)

    def grd(v):
        z = (base[v, :12] * 10).astype("<f8")
        head = bytearray(512)
        import struct as st

        st.pack_into("<5i", head, 0, 8, 2, 4, 3, 1)
        st.pack_into("<7d", head, 20, 10.0 + v, 5.0, 100.0 * v, -50.0, 0.0, 0.0, 1.0)
        return bytes(head) + z.tobytes()

    def gdf(v):
        rows = [f"{5.0 + i:.1f} {10.0 + j:.1f} {base[v, 4 * j + i] * 10:14.8f}" for j in (2, 1, 0) for i in range(4)]
        return "\n".join(["latlimit_north 12.0", "latlimit_south 10.0", "longlimit_west 5.0", "longlimit_east 8.0", "latitude_parallels 3", "longitude_parallels 4",
                          "number_of_gridpoints 12", "height_over_ell 10.0 m", f"modelname m{v}", "", "longitude latitude gravity_ell", "[deg.] [deg.] [mgal]", "end_of_head ====", *rows]).encode()

    fs = {"grd": (("grd",), lambda p, par: hm.load_oasis_montaj_grid(p), False), "gdf": (("gdf",), lambda p, par: hm.load_icgem_gdf(p), False),
          "gdf by name": (("gdf",), lambda p, par: hm.load_icgem_gdf(str(p)), False)}
    F["files"] = (dict(grd=File(".grd", grd), gdf=File(".gdf", gdf)), fs)
    return F, made


def fork(fn):
    """The value of fn() computed in another process, that ends without a trace."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = pickle.dumps(("ok", fn()))
        except BaseException as e:  # noqa: BLE001
            out = pickle.dumps(("error", f"{type(e).__name__}: {e}"))
        with os.fdopen(w, "wb") as f:
            f.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        text = f.read()
    os.waitpid(pid, 0)
    if not text:
        raise MachineryError("a reference process died")
    return pickle.loads(text)


def replay(c, name, objs, funs, made, ref, trail, n):
    made.clear()
    now = {o: k.new(1) for o, k in objs.items()}
    held = {}
    what = f"{name}, session " + "; ".join(" ".join(str(v) for k, v in e.items() if k != "of") for e in trail)
    version = {o: 1 for o in objs}
    keep = []  # replaced objects stay alive or not
    before = settings()
    for step, e in enumerate(trail):
        if e["op"] == "edit":
            objs[e["o"]].edit(now[e["o"]], e["v"])
            version[e["o"]] = e["v"]
        elif e["op"] == "replace":
            if n % 2:
                keep.append(now[e["o"]])
            now[e["o"]] = objs[e["o"]].new(version[e["o"]])
        elif e["op"] == "scribble":
            if e["n"] in held:
                for b in buffers(held.pop(e["n"])[0]):
                    if b.flags.writeable and b.dtype.kind in "fi":
                        b[...] = 77
        elif e["op"] == "refuse":
            takes, fn, par = funs[e["f"]]
            try:
                fn(*[(None, "nothing", {}, object())[(n + step) % 4] if o == e["o"] else now[o] for o in takes], False)
            except Exception:  # noqa: BLE001
                c.validated(1, "refused")
            for k, q in settings().items():
                c.equal(q, before[k], f"{k} of the process after {e['f']} was called without its {e['o']} in step {step + 1} of {what}")
        else:
            takes, fn, par = funs[e["f"]]
            args = [now[o] for o in takes]
            try:
                got = fn(*args, bool(par and (n + step) % 3 == 0))
            except Exception as err:  # noqa: BLE001
                c.violation(f"{e['f']} raised {type(err).__name__}: {err} in step {step + 1} of {what}")
                return
            want = ref(e["f"], e["of"])
            if want is None:
                return
            if not same(flat(got), want):
                c.violation(f"{e['f']} in step {step + 1} does not give what it gives of the same arguments otherwise: {what}", got=flat(got), specified=want)
                return
            held[e["n"]] = (got, flat(got), e["f"])
            after = settings()
            for k in before:
                if after[k] != before[k]:
                    c.violation(f"{e['f']} in step {step + 1} changed the {k} of the process: {what}")
                    return
        for o, k in objs.items():
            if not same(k.look(now[o]), k.look_fresh[version[o]], 0):
                c.violation(f"the {o} of the caller changed in step {step + 1}, {e['op']} {e.get('f', '')}, of {what}")
                return
    for got, copy_, f in held.values():
        if not same(flat(got), copy_, 0):
            c.violation(f"a result of {f} changed after it was returned: {what}")
            return
    c.validated(1, name, dict(session=what) if n < 2 else None)


def run(c, hm, name, cases, salt):
    undo = igrfcommon.install(hm, igrfcommon.coefficients(3))
    F, made = families(hm)
    objs, funs = F[name]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # compile, with arguments that are not used again
            for takes, fn, _ in funs.values():
                try:
                    fn(*[objs[o].new(0) for o in takes], False)
                except Exception as e:  # noqa: BLE001
                    c.violation(f"a first call of the functions of {name} raised {type(e).__name__}: {e}")
                    return
            made.clear()
            for k in objs.values():
                k.look_fresh = {v: k.look(k.new(v)) for v in (1, 2, 3)}
            known = {}

            def ref(f, of):
                takes, fn, _ = funs[f]
                key = (f, *(of[o] for o in takes))
                if key not in known:
                    state, value = fork(lambda: flat(fn(*[objs[o].new(of[o]) for o in takes], False)))
                    if state == "error":
                        c.violation(f"{f} of version {of} raised {value}")
                        value = None
                    known[key] = value
                return known[key]

            for case in cases:
                for e in case["trail"]:
                    if e["op"] == "call":
                        ref(e["f"], e["of"])
            # other arguments give other results
            for f in funs:
                vals = [v for k, v in known.items() if k[0] == f and v is not None]
                if f != "memory":
                    c.true(all(not same(a, b, 1e-14) for i, a in enumerate(vals) for b in vals[:i]), f"{f} gives the same for different arguments")
            for n, case in enumerate(cases):
                replay(c, name, objs, funs, made, ref, case["trail"], n)
            c.counts["references"] = c.counts.get("references", 0) + len(known)
    finally:
        undo()
        for k in objs.values():
            if hasattr(k, "clean"):
                k.clean()


def tla(takes):
    return "(" + " @@ ".join(f'("{f}" :> {{{", ".join(chr(34) + o + chr(34) for o in t)}}})' for f, t in takes.items()) + ")"


def check(c):
    import harmonica as hm

    undo = igrfcommon.install(hm, igrfcommon.coefficients(3))
    F, _ = families(hm)
    undo()
    inv = ["Faithful", "Emit"]
    props = ["KeepsResults", "OnlyEdits"]
    small = tla({"f": ("a", "b"), "g": ("a",)})
    c.tlc("Session", constants=dict(Takes=small, Versions="{1, 2}", MaxLen=5 if THOROUGH else 4, Key='"contents"'), invariants=["Faithful"], properties=props)
    bad = c.tlc("Session", constants=dict(Takes=small, Versions="{1, 2}", MaxLen=3, Key='"identity"'), invariants=["Faithful"], expect_reject=True)
    if bad.rejected is None:
        raise MachineryError("a memory keyed by identity was accepted")
    jobs = []
    for i, (name, (objs, funs)) in enumerate(F.items()):
        sim = c.tlc("Session", constants=dict(Takes=tla({f: t[0] for f, t in funs.items()}), Versions="{1, 2, 3}", MaxLen=11, Key='"contents"'), invariants=inv,
                    simulate=1800 if THOROUGH else 230, depth=12)
        cases = sim.cases
        if len(cases) < 90:
            raise MachineryError(f"few sessions for {name}")
        jobs.append(lambda s, name=name, cases=cases, i=i: run(s, hm, name, cases, 1100 + i))
    c.parts(*jobs)
    for name in F:
        c.require(name, 80)
    c.require("references", 300)
    c.require("refused", 300)
