"""Texts and metadata of results: the histories of Describe.tla."""
import datetime
import re

import numpy as np
import xarray as xr

from vlib import THOROUGH, MachineryError, rng

from . import igrfcommon as ic

SKEW = np.array([[0.9, 0.125, 0.0], [0.125, 0.5, 0.25], [0.0, 0.25, 0.375]])
AXIS = {"2": 2, "7.5": 7.5, "np3": np.float64(3), "int40": np.int64(40)}
ANGLE = {"0": 0, "35": 35, "-120.5": -120.5}
BODY = {**{x: AXIS for x in "abc"}, **{x: ANGLE for x in ("yaw", "pitch", "roll")},
        "center": {"origin": (0, 0, 0), "moved": (10.5, -4.0, 3), "carray": np.array([0.0, 2.5, -100.0])},
        "density": {"unset": None, "100": 100.0, "np250": np.float64(250.5), "zero": 0, "-40": -40.0},
        "susceptibility": {"unset": None, "0.5": 0.5, "zero": 0.0, "tensor": np.diag([0.1, 0.2, 0.3]), "skew": SKEW},
        "remanent_mag": {"unset": None, "list": [1.5, -2.0, 3.25], "array": np.array([0.5, 20.0, -30.0]), "zeros": (0, 0, 0)}}
UNITS = {"a": "m", "b": "m", "c": "m", "center": "m", "density": "kg/m³", "remanent_mag": "A/m"}
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def numbers(text):
    return [float(x) for x in NUMBER.findall(text)]


def told(text, sep):
    """name -> what follows it, up to the next name."""
    names = "|".join(BODY)
    marks = list(re.finditer(rf"(?<![A-Za-z_])({names})\s*{sep}", text))
    return [(m.group(1), text[m.end():(marks[i + 1].start() if i + 1 < len(marks) else len(text))]) for i, m in enumerate(marks)]


def body_text(c, hm, body, want, what):
    for how, text, sep in (("str", str(body), ":"), ("repr", repr(body), "=")):
        found = told(text.replace("harmonica.Ellipsoid(", "").replace("Ellipsoid:", "") if how == "repr" else text.split("\n", 1)[-1], sep)
        if not c.equal(sorted(n for n, _ in found), sorted(want), f"{what}: attributes named by {how}", text=text):
            continue
        for name, rest in found:
            val = np.asarray(BODY[name][want[name]], dtype=float).ravel()
            got = numbers(rest.replace("m³", "m"))
            c.true(len(got) == val.size and np.allclose(got, val, rtol=1e-7, atol=0), f"{what}: {how} tells {name} as {rest.strip()!r}, it is {val.tolist()}", text=text)
            if how == "str" and name in UNITS:
                c.true(UNITS[name] in rest, f"{what}: unit of {name} in {rest.strip()!r}")
        c.true(text.lstrip().startswith("Ellipsoid") if how == "str" else text.startswith("harmonica.Ellipsoid("), f"{what}: {how} starts with {text[:25]!r}")
    if want.get("susceptibility") in (None, "0.5", "zero") and "remanent_mag" not in want:
        again = c.call(f"{what}: the text {repr(body)!r} as an expression", eval, repr(body), {"harmonica": hm})
        if again is not None:
            for x in ("a", "b", "c", "yaw", "pitch", "roll", "center", "density", "susceptibility"):
                p, q = getattr(body, x), getattr(again, x)
                c.true((p is None and q is None) or (p is not None and q is not None and np.array_equal(np.asarray(p, dtype=float), np.asarray(q, dtype=float))), f"{what}: {x} of {repr(body)} is {q!r}, it was {p!r}")
            c.validated(1, "evaluated")


def bodies(c, hm, cases):
    for n, case in enumerate(cases):
        body, k = hm.Ellipsoid(7.5, 2, np.float64(3)), 0
        what = f"history {[tuple(t) for t in case['trail']]}"
        texts = []
        for op, x, v in case["trail"]:
            if op == "set":
                val = BODY[x][v]
                setattr(body, x, val.copy() if isinstance(val, np.ndarray) else val)
            else:
                body_text(c, hm, body, case["made"][k], what)
                texts.append((dict(case["made"][k]), str(body), repr(body)))
                k += 1
        for i, a in enumerate(texts):
            for b in texts[:i]:
                c.equal(a[1:] == b[1:], a[0] == b[0], f"{what}: equal texts for equal attributes only", texts=[a[1], b[1]])
        c.validated(1, "body", dict(trail=case["trail"], text=texts[-1][1]) if n < 1 else None)
        if len(c.violations) > 5:
            return


REGION = {"pacific": (170, 215, -20, 10), "zero": (-30, 45, -45, 45), "globe": (0, 360, -90, 90)}


def igrf_grids(c, hm, cases):
    import boule

    undo = ic.install(hm, ic.coefficients(3))
    try:
        models = [(hm.IGRF14("2001-02-03", max_degree=6), "2001-02-03", boule.WGS84), (hm.IGRF14(datetime.datetime(1999, 12, 31, 6, 30), min_degree=2, max_degree=3, ellipsoid=boule.GRS80), "1999-12-31T06:30", boule.GRS80),
                  (hm.IGRF14(datetime.datetime(2027, 7, 1), max_degree=2), "2027-07-01", boule.WGS84)]
        for n, case in enumerate(cases):
            m, day, ell = models[n % 3]
            now = {"region": "zero", "height": "number", "nodes": "shape"}
            done, k = [], 0
            what = f"IGRF of {day} {[tuple(t) for t in case['trail']]}"
            for op, x, v in case["trail"]:
                if op == "set":
                    now[x] = v
                    continue
                c.equal(now, case["made"][k], "bookkeeping of the harness")
                k += 1
                w, e, s, nn = REGION[now["region"]]
                shape, kw = (3, 4), dict(shape=(3, 4))
                if now["nodes"] == "spacing":
                    step = (15, 15)
                    kw, shape = dict(spacing=15.0), ((nn - s) // 15 + 1, (e - w) // 15 + 1)
                elif now["nodes"] == "adjusted":  # the spacing wins: the grid does not end where the region does
                    kw, shape = dict(spacing=(14.0, 16.0), adjust="region"), None
                elif now["nodes"] == "ideal":
                    kw, shape = {}, None
                if now["height"] == "array":
                    if shape is None:
                        continue
                    h = np.linspace(-100.0, 9000.0, shape[0] * shape[1]).reshape(shape)
                else:
                    h = 1500.0
                g = c.call(what, m.grid, (w, e, s, nn), height=h, **kw)
                if g is None:
                    continue
                done.append((g, dict(now), h, shape))
            for g, now, h, shape in done:
                w, e, s, nn = REGION[now["region"]]
                dt = datetime.datetime.fromisoformat(day)
                at = g.attrs
                when = at.get("date")
                c.true(when is not None and datetime.datetime.fromisoformat(when) == dt, f"{what}: date {when!r}")
                for field in ("title", "description"):
                    c.true(day in str(at.get(field)), f"{what}: {field} {at.get(field)!r} tells the date")
                c.equal(at.get("crs"), ell.name, f"{what}: crs")
                c.equal(at.get("units"), "nT", f"{what}: units")
                c.true(m.doi in str(at.get("references")), f"{what}: references")
                c.equal(sorted(map(str, g.data_vars)), ["b_east", "b_north", "b_up"], f"{what}: variables")
                if sorted(map(str, g.data_vars)) != ["b_east", "b_north", "b_up"]:
                    continue
                for q, word in (("b_east", "eastward"), ("b_north", "northward"), ("b_up", "upward")):
                    c.equal(g[q].attrs.get("units"), "nT", f"{what}: units of {q}")
                    c.true(word in str(g[q].attrs.get("long_name")).lower() and word in str(g[q].attrs.get("description")).lower() and day in str(g[q].attrs.get("description")), f"{what}: texts of {q}: {g[q].attrs}")
                    c.equal(tuple(g[q].dims), ("latitude", "longitude"), f"{what}: dims of {q}")
                for q, lo, hi, unit in (("longitude", w, e, "degrees_east"), ("latitude", s, nn, "degrees_north")):
                    v = g[q].values
                    c.close(np.array(g[q].attrs.get("actual_range", (np.nan, np.nan)), dtype=float), np.array([v.min(), v.max()]), f"{what}: actual_range of {q}", rtol=1e-12)
                    if now["nodes"] == "adjusted":
                        step = 14.0 if q == "latitude" else 16.0
                        c.close(np.diff(v), np.full(v.size - 1, step), f"{what}: spacing of {q}", rtol=1e-12, atol=1e-9)
                        c.true(max(abs(v[-1] - hi), abs(v[0] - lo)) <= step / 2 + 1e-9, f"{what}: first and last node of {q}: {v[0]} and {v[-1]}")
                    else:
                        c.close(np.array([v[0], v[-1]]), np.array([lo, hi], dtype=float), f"{what}: region in {q}", rtol=1e-12, atol=1e-9)
                    c.equal((g[q].attrs.get("units"), g[q].attrs.get("standard_name"), g[q].attrs.get("long_name")), (unit, q, q), f"{what}: attributes of {q}")
                c.equal((g.height.attrs.get("units"), g.height.attrs.get("standard_name")), ("m", "height_above_reference_ellipsoid"), f"{what}: attributes of the height")
                c.close(g.height.values, np.broadcast_to(h, g.b_up.shape), f"{what}: heights", rtol=0)
                if shape:
                    c.equal(g.b_up.shape, tuple(shape), f"{what}: shape")
                elif now["nodes"] == "ideal":
                    # 2 N + 2 nodes per 180 degrees, rounded to the region
                    for q, span in (("latitude", nn - s), ("longitude", e - w)):
                        want = span * (2 * m.max_degree + 2) / 180
                        c.true(abs(g[q].size - 1 - want) <= 0.5001, f"{what}: {g[q].size} nodes in {q} of the grid of degree {m.max_degree}")
                c.validated(1, "igrf")
    finally:
        undo()


def mohos(c, hm, cases):
    num = {"2800": 2800.0, "2670.5": 2670.5, "3300": 3300.0, "int3200": 3200, "1040": 1040, "1025.5": 1025.5, "2100": np.float64(2100.0)}
    for n, case in enumerate(cases):
        now = {"crust": "2800", "mantle": "3300", "basement": "grid"}
        results, k = [], 0
        what = f"Moho {[tuple(t) for t in case['trail']]}"
        basement = xr.DataArray(np.arange(12.0).reshape(3, 4) * 100 - 500, dims=("latitude", "longitude"), coords=dict(latitude=[1.0, 2, 3], longitude=[5.0, 6, 7, 8]))
        thick = basement * 0 + 50
        for op, x, v in case["trail"]:
            if op == "set":
                now[x] = v
                if v == "unset":
                    now.pop(x)
                continue
            c.equal(now, case["made"][k], "bookkeeping of the harness")
            k += 1
            base = basement.copy(deep=True)
            if now["basement"] == "named grid":
                base.name, base.attrs = "basement", {"units": "m", "history": "made up"}
            if now["basement"] == "kept grid":  # descriptions of another result
                base.attrs = {f"density_{q}": "another" for q in ("crust", "mantle", "water", "salt")} | {"isostasy": "Pratt", "units": "m"}
            layers = {q: (thick, num[now[q]]) for q in ("salt", "water")[:: 1 if n % 2 else -1] if q in now}
            keep = (base.copy(deep=True), dict(base.attrs), base.name)
            with xr.set_options(keep_attrs=True if now["basement"] == "kept grid" else "default"):
                got = c.call(what, hm.isostatic_moho_airy, base, layers=layers or (None if n % 2 else {}), density_crust=num[now["crust"]], density_mantle=num[now["mantle"]])
            if got is None:
                continue
            c.true(base.identical(keep[0]) and base.attrs == keep[1] and base.name == keep[2] and not thick.attrs and thick.name is None, f"{what}: the basement and the thickness keep their names and attributes")
            results.append((got, dict(now)))
        for got, now in results:
            c.equal(got.name, "moho_depth", f"{what}: name")
            c.equal(got.attrs.get("isostasy"), "Airy", f"{what}: isostasy")
            for q in ("crust", "mantle", "water", "salt"):
                v = got.attrs.get(f"density_{q}")
                if q in now:
                    ok = v is not None and bool(NUMBER.fullmatch(str(v))) and float(v) == float(num[now[q]])
                else:
                    ok = v is None or now["basement"] == "kept grid"
                c.true(ok, f"{what}: density_{q} is told as {v!r}, specified {now.get(q)}")
        c.validated(1, "moho")


def layers(c, hm, cases):
    g = rng(991)
    for n, case in enumerate(cases):
        now = {"of": "prisms"}
        results, k = [], 0
        what = f"layer {[tuple(t) for t in case['trail']]}"
        for op, x, v in case["trail"]:
            if op == "set":
                now[x] = v
                if v == "unset":
                    now.pop(x)
                continue
            c.equal(now, case["made"][k], "bookkeeping of the harness")
            k += 1
            props = {q: g.normal(size=(3, 4)) for q in ("density", "other") if q in now} or None
            fn = hm.prism_layer if now["of"] == "prisms" else hm.tesseroid_layer
            co = (np.arange(4) * 2.0, np.arange(3) * 5.0 + 1)
            got = c.call(what, fn, co, np.full((3, 4), 6.4e6), 6.3e6, properties=props)
            if got is not None:
                results.append((got, dict(now), props or {}))
        for got, now, props in results:
            attrs = {"coords_units": "meters", "properties_units": "SI"} if now["of"] == "prisms" else {"longitude_units": "degrees", "latitude_units": "degrees", "radius_units": "meters", "properties_units": "SI"}
            c.true(all(got.attrs.get(q) == v for q, v in attrs.items()), f"{what}: attributes {got.attrs}")
            c.true(set(got.attrs) <= set(attrs), f"{what}: attributes of another kind {got.attrs}")
            dims = ("northing", "easting") if now["of"] == "prisms" else ("latitude", "longitude")
            c.equal(sorted(map(str, got.data_vars)), sorted(props), f"{what}: properties of the layer")
            for q, v in props.items():
                if q in got:
                    c.equal(tuple(got[q].dims), dims, f"{what}: dimensions of {q}")
                    c.true(np.array_equal(got[q].values, v), f"{what}: values of {q}")
            c.equal(sorted(set(map(str, got.coords)) - set(dims)), ["bottom", "top"], f"{what}: coordinates")
        c.validated(1, "layer")


def check(c):
    import harmonica as hm

    inv = dict(invariants=["Complete", "Emit"], properties=["Kept"])
    short = {"body": 3, "igrf": 5, "moho": 4, "layer": 6}
    jobs = []
    for i, (kind, fn) in enumerate((("body", bodies), ("igrf", igrf_grids), ("moho", mohos), ("layer", layers))):
        cases = c.tlc("Describe", constants=dict(Kind=f'"{kind}"', MaxSteps=short[kind]), **inv).cases
        # the shorter ones all, a share of the others
        keep = {"body": 2500, "igrf": 150, "moho": 500, "layer": 150}[kind] * (8 if THOROUGH else 1)
        order = rng(50 + i).permutation(len(cases))[:keep]
        cases = [cases[j] for j in order]
        if kind == "body":
            cases += c.tlc("Describe", constants=dict(Kind='"body"', MaxSteps=16), **inv, simulate=400 if THOROUGH else 60, depth=17).cases[:6000 if THOROUGH else 1200]
        if len(cases) < 50:
            raise MachineryError(f"few histories of {kind}: {len(cases)}")
        jobs.append(lambda s, fn=fn, cases=cases: fn(s, hm, cases))
    c.parts(*jobs)
    for kind, least in (("body", 500), ("evaluated", 100), ("igrf", 50), ("moho", 100), ("layer", 50)):
        c.require(kind, least)
