"""Small inputs for everything that has a parallel loop: name -> (n points -> thunk(parallel, progressbar) -> array)."""
import numpy as np

from checks import igrfcommon


def builders(hm):
    def obs(n):
        k = np.arange(n)
        return (7.0 * k - 20.0 + k % 3, -11.0 * k + 13.0 * (k % 2), 5.0 + (k * 37 % 11))

    def sph(n):
        k = np.arange(n)
        return ((17.0 * k) % 360 - 100.0, (31.0 * k) % 160 - 80.0, 6.4e6 + 1000.0 * (k % 7))

    def srcs(m):
        k = np.arange(m)
        return (3.0 + 9.0 * k, -4.0 * k + 1, -30.0 - 3.0 * k)

    def prisms(m):
        e, n, u = srcs(m)
        return np.stack([e, e + 5, n, n + 3, u - 9, u], axis=1)

    def tess(m):
        k = np.arange(m)
        return np.stack([20.0 * k, 20.0 * k + 5, 3.0 * k, 3.0 * k + 4, 6.3e6 + 0 * k, 6.35e6 + 1e3 * k], axis=1)

    def density(radius):
        return 2000.0 + 1e-4 * radius

    from numba import njit

    jdensity = njit(density)
    A = np.asarray

    def layer(m):
        shape = (2, max(m, 2))
        v = np.arange(shape[0] * shape[1], dtype=float).reshape(shape)
        return hm.prism_layer((5.0 * np.arange(shape[1]), 4.0 * np.arange(shape[0])), -5 - v, -30.0, {"density": 100.0 + v})

    def tlayer(m):
        shape = (2, max(m, 2))
        v = np.arange(shape[0] * shape[1], dtype=float).reshape(shape)
        return hm.tesseroid_layer((5.0 * np.arange(shape[1]), 4.0 * np.arange(shape[0])), 6.37e6 - 100 * v, 6.3e6, {"density": 100.0 + v})

    def eqs(cls, par, m, **kw):
        e = cls(damping=1e-2, parallel=par, **kw)
        return e

    B = {}
    B["point"] = lambda n, m: lambda par, bar: hm.point_gravity(obs(n), srcs(m), 1e9 + np.arange(m), "g_z", parallel=par)
    B["point spherical"] = lambda n, m: lambda par, bar: hm.point_gravity(
        sph(n), (srcs(m)[0], srcs(m)[1], 6.2e6 + srcs(m)[2]), 1e15 + np.arange(m), "g_z", coordinate_system="spherical", parallel=par)
    for f in ("b", "b_u"):
        B["dipole " + f] = lambda n, m, f=f: lambda par, bar: A(hm.dipole_magnetic(
            obs(n), srcs(m), (1e3 + np.arange(m), 2e3 - np.arange(m), 5e2 + 0.0 * np.arange(m)), f, parallel=par, progressbar=bar))
        B["prism magnetic " + f] = lambda n, m, f=f: lambda par, bar: A(hm.prism_magnetic(
            obs(n), prisms(m), (1.0 + np.arange(m), 2.0 - np.arange(m), 0.5 + 0 * np.arange(m)), f, parallel=par, progressbar=bar))
    for f in ("g_z", "g_en"):
        B["prism " + f] = lambda n, m, f=f: lambda par, bar: hm.prism_gravity(
            obs(n), prisms(m), 500.0 + np.arange(m), f, parallel=par, progressbar=bar)
    B["prism layer"] = lambda n, m: lambda par, bar: layer(m).prism_layer.gravity(obs(n), "g_z", parallel=par, progressbar=bar)
    B["tesseroid"] = lambda n, m: lambda par, bar: hm.tesseroid_gravity(sph(n), tess(m), 500.0 + np.arange(m), "g_z", parallel=par, progressbar=bar)
    B["tesseroid variable"] = lambda n, m: lambda par, bar: hm.tesseroid_gravity(sph(n), tess(m), jdensity, "potential", parallel=par, progressbar=bar)
    B["tesseroid layer"] = lambda n, m: lambda par, bar: tlayer(m).tesseroid_layer.gravity(sph(n), "g_z", parallel=par, progressbar=bar)
    B["equivalent sources jacobian"] = lambda n, m: lambda par, bar: hm.EquivalentSources(parallel=par).jacobian(obs(n), srcs(m))
    B["spherical equivalent sources jacobian"] = lambda n, m: lambda par, bar: hm.EquivalentSourcesSph(parallel=par).jacobian(
        sph(n), (srcs(m)[0], srcs(m)[1], 6.2e6 + srcs(m)[2]))

    def predict(cls, n, m, par):
        e = cls(parallel=par)
        if cls is hm.EquivalentSourcesSph:
            e.points_ = (srcs(m)[0], srcs(m)[1], 6.2e6 + srcs(m)[2])
        else:
            e.points_ = srcs(m)
        e.coefs_ = 1.0 + np.arange(m)
        e.region_ = (0, 1, 0, 1)
        return e.predict(sph(n) if cls is hm.EquivalentSourcesSph else obs(n))

    B["equivalent sources predict"] = lambda n, m: lambda par, bar: predict(hm.EquivalentSources, n, m, par)
    B["spherical equivalent sources predict"] = lambda n, m: lambda par, bar: predict(hm.EquivalentSourcesSph, n, m, par)

    undo = igrfcommon.install(hm, igrfcommon.coefficients())
    field = hm.IGRF14("2021-03-04", max_degree=5)
    field.coefficients  # noqa: B018
    undo()
    B["IGRF predict"] = lambda n, m: lambda par, bar: np.array(field.predict(sph(n)[:2] + (1000.0 * np.arange(n),))).reshape(3, n)

    def igrf_grid(n, m):
        def run(par, bar):
            g = field.grid((0, 30, -20, 40), 100.0, shape=(m + 1, n))
            return np.stack([g.b_east.values, g.b_north.values, g.b_up.values])

        return run

    B["IGRF grid"] = igrf_grid
    return B


WITH_BAR = ("dipole b", "dipole b_u", "prism magnetic b", "prism magnetic b_u", "prism g_z", "prism g_en", "prism layer", "tesseroid",
            "tesseroid variable", "tesseroid layer")
NO_SERIAL = ("IGRF predict", "IGRF grid")
