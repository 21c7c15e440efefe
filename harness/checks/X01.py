"""Derivative, continuation and Gaussian filters: pipelines of Spectrum.tla and profiles of FiniteDiff.tla replayed."""
import numpy as np
import xarray as xr

import vlib
from vlib import THOROUGH, rng

from . import spectrum as sp


def finite(c, hm):
    r = c.tlc("FiniteDiff", constants=dict(Values="{-2, 0, 3}", Steps="{1, 3, -2, -1}", Lengths="{2, 3, 4}" if not THOROUGH else "{2, 3, 4, 5}"),
              invariants=["Mirror", "Line", "Parabola", "Linear", "Emit"])
    by = {}
    for k in r.cases:
        by.setdefault(tuple(k["x"]), []).append(k)
    for x, ks in sorted(by.items()):
        # profiles of the same coordinates stacked as the rows (or columns) of a grid with an uneven second axis
        f = np.array([k["f"] for k in ks], float)
        d = np.array([[a / b for a, b in k["d"]] for k in ks])
        other = np.cumsum(1.0 + (np.arange(len(ks)) % 3))
        xs = 10.0 + 2.5 * np.array(x, float)
        for names in (("northing", "easting"), ("easting", "northing"), ("lat", "lon")):
            g = xr.DataArray(f, coords={names[0]: other, names[1]: xs}, dims=names)
            keep = g.copy(deep=True)
            for fn, grid in ((hm.derivative_easting, g), (hm.derivative_northing, g.transpose(*names[::-1]))):
                for kw in ({}, {"method": "finite-diff"}):
                    got = c.call("finite differences", fn, grid, **kw)
                    if got is not None and c.equal(got.dims, grid.dims, "dimensions of a derivative"):
                        c.close(got.transpose(*names).values, d / 2.5, f"{fn.__name__} {kw} of profiles at {x}", rtol=1e-12, atol=1e-12)
                two = c.call("second order", fn, grid, order=2)
                one = c.call("first order twice", lambda: fn(fn(grid)))
                three = c.call("third order", fn, grid, order=3)
                if two is not None and one is not None and three is not None:
                    c.close(two.values, one.values, f"{fn.__name__} order 2 against twice order 1", rtol=1e-12, atol=1e-12)
                    c.close(three.values, fn(two).values, f"{fn.__name__} order 3", rtol=1e-12, atol=1e-12)
            c.true(g.identical(keep), "a finite-difference derivative modified the grid")
        c.validated(len(ks), "finite", dict(x=x, f=ks[0]["f"], d=ks[0]["d"]))
    g = xr.DataArray(np.eye(4), coords={"y": np.arange(4.0), "x": np.arange(4.0)}, dims=("y", "x"))
    for bad in ("fdt", "", "finite_diff", "FFT", None):
        for fn in (hm.derivative_easting, hm.derivative_northing):
            c.raises(f"derivative method {bad!r}", ValueError, fn, g, method=bad)


def kernel_gains(c, hm, gains):
    """The public kernels evaluated at every wavenumber, in any dimension naming."""
    call = sp.kernels(hm)
    g = rng(31)
    for key, (o, term) in sorted(gains.items()):
        for size in ((12, 10), (9, 7)):
            fr = sp.Frame(size, g, descending=(False, False))
            fy, fx = np.fft.fftshift(np.fft.fftfreq(size[0], fr.dy)), np.fft.fftshift(np.fft.fftfreq(size[1], fr.dx))
            for names in (("freq_northing", "freq_easting"), ("freq_easting", "freq_northing"), ("u", "v")):
                fft_grid = xr.DataArray(np.ones(size, complex), coords={names[0]: fy, names[1]: fx}, dims=names)
                keep = fft_grid.copy(deep=True)
                out = c.call(f"kernel {o['op']}", call, o, fft_grid, fr)
                if out is None:
                    continue
                full = (fft_grid * out).transpose(*names).values
                want = np.fft.fftshift(sp.gain_array(term, fr, *size))
                tag = f"kernel of {o['op']} {o['n'] or (o['f'], o['m'])} on {names}"
                c.close(full.real, want.real, tag + " (real)", rtol=1e-10, scale=float(np.abs(want).max()) * 1e-3)
                c.close(full.imag, want.imag, tag + " (imaginary)", rtol=1e-10, scale=float(np.abs(want).max()) * 1e-3)
                c.true(fft_grid.identical(keep), f"{tag} modified its argument")
            c.validated(1, "kernel")


def laws(c, hm, gains):
    """Linearity, complement of the Gaussians, and transposition of the roles on random grids with padding."""
    g = rng(32)
    call = sp.functions(hm)
    ops = [gains[k][0] for k in sorted(gains)]
    for rep in [*range(20 if THOROUGH else 6), *(["big", "long", "huge"] if THOROUGH else ["big"])]:
        size = dict(big=(307, 421), long=(2, 6007), huge=(1031, 977)).get(rep) or [(12, 10), (9, 7), (16, 5), (5, 14)][rep % 4]
        fr = sp.Frame(size, g)
        a, b = g.normal(size=(fr.ny, fr.nx)), g.normal(size=(fr.ny, fr.nx))
        for o in ops:
            term = gains[sp.op_key(o)][1]
            for pad in (True, False):
                outs = [c.call(o["op"], call, o, fr.wrap(d), fr, pad=pad) for d in (a, b, 2 * a - 3 * b)]
                if None in [type(i) if i is None else 1 for i in outs]:
                    continue
                u, v, w = (i.values for i in outs)
                big = max(np.abs(u).max(), np.abs(v).max(), 1e-30)
                c.close(w, 2 * u - 3 * v, f"linearity of {o['op']} (pad={pad})", rtol=1e-9, scale=10 * big)
                # default padding is symmetric: a quarter of the size on every side with the edge values
                want = sp.discrete(a, term, fr, sp.default_pad((fr.ny, fr.nx)) if pad else None)
                c.close(fr.unwrap(outs[0]), want, f"{o['op']} {o['n']} of a random grid {(fr.ny, fr.nx)} (pad={pad}, descending {fr.desc})", rtol=1e-9,
                        scale=float(np.abs(want).max()))
                c.validated(1, "random" if isinstance(rep, int) else "big")
        for w in (3, 8):
            lo = c.call("lowpass", hm.gaussian_lowpass, fr.wrap(a), w * fr.unit)
            hi = c.call("highpass", hm.gaussian_highpass, fr.wrap(a), w * fr.unit)
            if lo is not None and hi is not None:
                c.close((lo + hi).values, fr.wrap(a).values, "low-pass plus high-pass", rtol=1e-9, atol=1e-9)


def check(c):
    import harmonica as hm

    ex = sp.spec(c, depth=2)
    gains = {sp.op_key(k["op"]): (k["op"], k["term"]) for k in ex.cases if k["kind"] == "gain"}
    terms = {k: v[1] for k, v in gains.items()}
    cases = [k for k in ex.cases if k["kind"] == "case"]
    si = sp.spec(c, depth=4, simulate=300 if THOROUGH else 20, seed=vlib.SEED + 5)
    long = [k for k in si.cases if k["kind"] == "case" and len(k["pipe"]) > 2]
    short = [k for k in cases if len(k["pipe"]) == 1]
    two = [k for k in cases if len(k["pipe"]) == 2]
    c.parts(lambda s: finite(s, hm), lambda s: kernel_gains(s, hm, gains), lambda s: laws(s, hm, gains),
            lambda s: sp.replay_modes(s, hm, short, terms, 41), lambda s: sp.replay_modes(s, hm, two, terms, 42),
            lambda s: sp.replay_modes(s, hm, two, terms, 43), lambda s: sp.replay_modes(s, hm, long, terms, 44))
    for op in ("east", "north", "up", "cont", "low", "high"):
        c.require("op:" + op, 40)
    for k in ("finite", "kernel", "random", "big"):
        c.require(k, 10)
