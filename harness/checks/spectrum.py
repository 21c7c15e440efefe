"""Grids for the transformations: built from the modes of Spectrum.tla, and the discrete reference for padded grids."""
import numpy as np
import xarray as xr

from vlib import THOROUGH, ev, rng

L = np.longdouble
INV = ["Laplace", "OrdersAdd", "Commute", "Hermitian", "PoleLaws", "EmitDef", "EmitCase"]
MODES = "{<<0,0>>,<<0,1>>,<<0,2>>,<<1,0>>,<<2,0>>,<<1,1>>,<<1,-1>>,<<2,1>>,<<3,4>>,<<4,3>>,<<4,-3>>,<<3,-4>>,<<6,2>>,<<5,5>>,<<0,5>>,<<6,0>>}"


def spec(c, ops="diff", depth=2, simulate=None, seed=None):
    """Pipelines of the derivative/continuation/Gaussian filters (ops = diff) or of reduction to the pole."""
    k = dict(Sizes="<<<<12, 10>>, <<9, 12>>, <<11, 13>>>>", Modes=MODES, Depth=depth)
    if ops == "diff":
        k.update(Orders="{1, 2, 3}", Heights="{2, -1, 5}", Waves="{3, 8}", Angles="{}")
    else:
        k.update(Orders="{1}", Heights="{2}", Waves="{8}",
                 Angles="{<<90, 0>>, <<90, 37>>, <<60, 20>>, <<-45, -30>>, <<30, 200>>, <<12, -75>>, <<-90, 10>>, <<120, 20>>, <<35, 0>>, <<0, 40>>}")
    kw = dict(simulate=simulate, depth=depth + 1, seed=seed) if simulate else {}
    return c.tlc("Spectrum", constants=k, invariants=INV, **kw)


def op_key(o):
    return (o["op"], o["n"], tuple(o.get("f", ())), tuple(o.get("m", ())))


class Frame:
    """A coordinate frame: sizes, spacings, origins, directions and names of the dimensions."""

    NAMES = [("northing", "easting"), ("y", "x"), ("latitude", "longitude"), ("easting", "northing"), ("b", "a")]

    def __init__(self, size, g, descending=None):
        self.ny, self.nx = size
        self.dy, self.dx = float(g.choice([1.0, 25.0, 0.5, 3.7])), float(g.choice([1.0, 40.0, 0.25, 2.9]))
        self.y0, self.x0 = float(g.choice([0.0, -300.0, 7.3e4])), float(g.choice([0.0, 51.0, -2.6e4]))
        # from laboratory samples to continents
        size_ = 2.0 ** float(g.choice([0, 0, 0, -10, 19]))
        self.dy, self.dx, self.y0, self.x0 = (q * size_ for q in (self.dy, self.dx, self.y0, self.x0))
        self.dims = self.NAMES[int(g.integers(len(self.NAMES)))]
        self.unit = min(self.dy, self.dx)
        desc = descending if descending is not None else (bool(g.integers(2)), bool(g.integers(2)))
        self.y = self.y0 + self.dy * np.arange(self.ny)
        self.x = self.x0 + self.dx * np.arange(self.nx)
        self.desc = desc

    def k(self, mode):
        return 2 * np.pi * L(mode[1]) / (self.nx * L(self.dx)), 2 * np.pi * L(mode[0]) / (self.ny * L(self.dy))

    def gain(self, term, mode):
        kx, ky = self.k(mode)
        env = dict(kx=kx, ky=ky, unit=L(self.unit))
        return ev(term[0], env), ev(term[1], env)

    def theta(self, mode, phase):
        j, i = np.meshgrid(np.arange(self.nx), np.arange(self.ny))
        return 2 * np.pi * (L(mode[1]) * j / L(self.nx) + L(mode[0]) * i / L(self.ny)) + L(phase)

    def wrap(self, data, name="data", extra=True):
        """The array as a DataArray; data are given on increasing coordinates."""
        y, x = self.y, self.x
        data = np.asarray(data)
        if self.desc[0]:
            y, data = y[::-1], data[::-1]
        if self.desc[1]:
            x, data = x[::-1], data[:, ::-1]
        coords = {self.dims[0]: y.copy(), self.dims[1]: x.copy()}
        if extra:
            coords["height"] = (self.dims, np.hypot(*np.meshgrid(x, y)))
            coords["epoch"] = 7.5
        return xr.DataArray(np.array(data), coords=coords, dims=self.dims, name=name)

    def unwrap(self, da):
        """The values of a DataArray on increasing coordinates."""
        v = np.asarray(da.values)
        if self.desc[0]:
            v = v[::-1]
        if self.desc[1]:
            v = v[:, ::-1]
        return v


def functions(hm):
    """The library call for every operator of the specification."""
    def call(o, grid, fr, **kw):
        n = o["n"]
        if o["op"] == "east":
            return hm.derivative_easting(grid, order=n, method="fft", **kw)
        if o["op"] == "north":
            return hm.derivative_northing(grid, order=n, method="fft", **kw)
        if o["op"] == "up":
            return hm.derivative_upward(grid, order=n, **kw)
        if o["op"] == "cont":
            return hm.upward_continuation(grid, n * fr.unit, **kw)
        if o["op"] == "low":
            return hm.gaussian_lowpass(grid, n * fr.unit, **kw)
        if o["op"] == "high":
            return hm.gaussian_highpass(grid, n * fr.unit, **kw)
        return hm.reduction_to_pole(grid, o["f"][0], o["f"][1], o["m"][0], o["m"][1], **kw)
    return call


def kernels(hm):
    f = hm.filters

    def call(o, fft_grid, fr):
        n = o["n"]
        if o["op"] == "east":
            return f.derivative_easting_kernel(fft_grid, order=n)
        if o["op"] == "north":
            return f.derivative_northing_kernel(fft_grid, order=n)
        if o["op"] == "up":
            return f.derivative_upward_kernel(fft_grid, order=n)
        if o["op"] == "cont":
            return f.upward_continuation_kernel(fft_grid, n * fr.unit)
        if o["op"] == "low":
            return f.gaussian_lowpass_kernel(fft_grid, n * fr.unit)
        if o["op"] == "high":
            return f.gaussian_highpass_kernel(fft_grid, n * fr.unit)
        return f.reduction_to_pole_kernel(fft_grid, o["f"][0], o["f"][1], o["m"][0], o["m"][1])
    return call


def gain_array(term, fr, ny, nx):
    """Complex gains at all wavenumbers of an ny x nx grid (fft order); the mean of a reduction to the pole is mapped to zero."""
    kx = 2 * np.pi * np.fft.fftfreq(nx, fr.dx).astype(L)[None, :]
    ky = 2 * np.pi * np.fft.fftfreq(ny, fr.dy).astype(L)[:, None]
    with np.errstate(all="ignore"):
        env = dict(kx=kx, ky=ky, unit=L(fr.unit))
        re, im = (np.broadcast_to(ev(t, env), (ny, nx)) for t in term)
    g = re.astype(float) + 1j * im.astype(float)
    g[0, 0] = np.where(np.isnan(g[0, 0]), 0, g[0, 0])
    return g


def discrete(data, term, fr, pad=None):
    """Reference for a whole grid on increasing coordinates: pad, transform, multiply, transform back, cut."""
    if pad is not None:
        width, mode, kw = pad
        data = np.pad(np.asarray(data, float), width, mode=mode, **kw)
    out = np.fft.ifft2(np.fft.fft2(data) * gain_array(term, fr, *data.shape)).real
    if pad is not None:
        (a, b), (p, q) = width
        out = out[a:out.shape[0] - b, p:out.shape[1] - q]
    return out


def default_pad(shape):
    a, b = int(0.25 * shape[0]), int(0.25 * shape[1])
    return ((a, a), (b, b)), "edge", {}


def replay_modes(c, hm, cases, gains, salt):
    """Sums of up to three modes pushed through the same pipeline of library calls, against the specified gains."""
    call = functions(hm)
    by = {}
    for k in cases:
        by.setdefault((tuple(k["size"]), tuple(op_key(o) for o in k["pipe"])), []).append(k)
    g = rng(salt)
    keys = sorted(by)
    order = g.permutation(len(keys))
    for pos in order[: 100000 if THOROUGH else 500]:
        ks = by[keys[pos]]
        size = keys[pos][0]
        fr = Frame(size, g)
        pick = [ks[i] for i in g.permutation(len(ks))[:3]]
        # a second occurrence of the same wave on the grid (p, q) and (p', q') may only differ by sign: keep modes distinct
        data = np.zeros(size, L)
        want = np.zeros(size, L)
        scale = 0.0
        for m in pick:
            amp, phase = float(g.uniform(0.5, 2)), float(g.uniform(0, 6.28))
            th = fr.theta(m["mode"], phase)
            re, im = L(1), L(0)
            for o in m["pipe"]:
                a, b = fr.gain(gains[op_key(o)], m["mode"])
                re, im = re * a - im * b, re * b + im * a
            data += amp * np.cos(th)
            if not m["zero"]:
                want += amp * (re * np.cos(th) - im * np.sin(th))
            big = float(amp * np.hypot(float(re), float(im)))
            scale = max(scale, big)
        # rounding is amplified by the largest gain of the grid
        worst = 1.0
        kmax = (np.pi / fr.dx, np.pi / fr.dy)
        for o in pick[0]["pipe"]:
            if o["op"] in ("east", "north", "up"):
                worst *= np.hypot(*kmax) ** o["n"]
            elif o["op"] == "cont" and o["n"] < 0:
                worst *= np.exp(np.hypot(*kmax) * -o["n"] * fr.unit)
            elif o["op"] == "pole":
                ga = gain_array(gains[op_key(o)], fr, fr.ny, fr.nx)
                worst *= max(1.0, float(np.abs(ga).max()))
        grid = fr.wrap(data.astype(float))
        out = grid
        names = "+".join(f"{o['op']}{o['n'] or ''}" for o in pick[0]["pipe"])
        for o in pick[0]["pipe"]:
            if out is not None:
                out = c.call(f"{names} on {fr.dims}", call, o, out, fr, pad=False)
        if out is None:
            continue
        c.close(fr.unwrap(out), want.astype(float), f"{names} of modes {[m['mode'] for m in pick]} on a {size} grid (descending {fr.desc}, dims {fr.dims})",
                rtol=1e-9, scale=scale, atol=1e-11 * worst, pipe=pick[0]["pipe"], modes=[m["mode"] for m in pick])
        for o in pick[0]["pipe"]:
            c.validated(1, "op:" + o["op"], dict(size=size, mode=pick[0]["mode"], pipe=pick[0]["pipe"]))
