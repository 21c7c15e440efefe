"""IGRF in time: the instants and spellings of Instants.tla, the histories of IgrfLife.tla."""
import datetime
import pathlib
import tempfile

import numpy as np

import vlib
from vlib import THOROUGH, rng

from . import igrfcommon as ic

L = np.longdouble
BASE = datetime.date(1900, 1, 1)


def days(g):
    out = set()
    for y in range(1899, 2033):
        if THOROUGH or y % 5 in (0, 4) or y in (1901, 2026, 2027, 2028, 2031, 2032):
            out |= {(datetime.date(y, 1, 1) - BASE).days + d for d in (-1, 0)}
    for y in (1900, 1904, 1999, 2000, 2024, 2026, 2028):
        out |= {(datetime.date(y, *md) - BASE).days for md in ((2, 28), (3, 1), (6, 30), (12, 31), (2, 27))}
        if y % 4 == 0 and y != 1900:
            out.add((datetime.date(y, 2, 29) - BASE).days)
    out |= {int(v) for v in g.integers(0, 47482, 200 if THOROUGH else 40)}
    return out


def tables(coeffs):
    """g, h at the epochs and their secular variation"""
    n = ic.NMAX + 1
    out = {k: np.zeros((len(ic.YEARS) + 1, n, n), dtype=L) for k in "gh"}
    for (k, d, m), v in coeffs.items():
        out[k][:, d, m] = [L(repr(round(x, 2))) for x in v]
    return out


def expected(tabs, case, seconds, top=ic.NMAX):
    i = ic.YEARS.index(case["epoch"])
    elapsed = L(case["elapsed"]) * 60 + L(seconds)
    out = []
    for k in "gh":
        t = tabs[k]
        if i == len(ic.YEARS) - 1:
            v = t[i] + t[i + 1] * elapsed / (L(36525) / 100 * 86400)
        else:
            v = t[i] + (t[i + 1] - t[i]) * elapsed / (L(case["length"]) * 60)
        out.append(v[:top + 1, :top + 1].astype(float))
    return out


def zone(offset):
    sign = "-" if offset < 0 else "+"
    return f"{sign}{abs(offset) // 60:02d}:{abs(offset) % 60:02d}"


def spellings(k, second, micro):
    """Ways of writing the local date and time of a case."""
    y, mo, d = k["civil"]
    h, mi = divmod(k["minute"], 60)
    bare = k["offset"] == 9999
    tz = "" if bare else zone(k["offset"])
    whole = datetime.datetime(y, mo, d, h, mi, second, micro, tzinfo=None if bare else datetime.timezone(datetime.timedelta(minutes=k["offset"])))
    week = "{}-W{:02d}-{}".format(*datetime.date(y, mo, d).isocalendar())
    clock = f"{h:02d}:{mi:02d}:{second:02d}" + (f".{micro:06d}" if micro else "")
    out = [whole, whole.isoformat(), f"{y:04d}-{mo:02d}-{d:02d} {clock}{tz}", f"{y:04d}{mo:02d}{d:02d}T{clock.replace(':', '')}{tz.replace(':', '')}", f"{week}T{clock}{tz}"]
    if k["offset"] == 0:
        out.append(f"{y:04d}-{mo:02d}-{d:02d}T{clock}Z")
    if second == 0 and micro == 0:
        out.append(f"{y:04d}-{mo:02d}-{d:02d}T{h:02d}:{mi:02d}{tz}")
        if k["minute"] == 0 and bare:
            out += [f"{y:04d}-{mo:02d}-{d:02d}", f"{y:04d}{mo:02d}{d:02d}", week]
    return out


def instants(cases, salt):
    def part(c):
        import harmonica as hm

        g = rng(salt)
        coeffs = ic.coefficients(vlib.SEED)
        tabs = tables(coeffs)
        undo = ic.install(hm, coeffs)
        try:
            for pos, k in enumerate(cases):
                second, micro = ((0, 0), (59, 999999), (30, 0), (int(g.integers(60)), int(g.integers(10 ** 6))))[pos % 4]
                ways = spellings(k, second, micro)
                pick = range(len(ways)) if THOROUGH else {0, 1, int(g.integers(len(ways))), len(ways) - 1}
                for w in sorted(pick):
                    what = f"IGRF on {ways[w]!r}"
                    if not k["valid"]:
                        c.raises(what, (ValueError,), lambda: hm.IGRF14(ways[w]).coefficients)
                        c.validated(1, "refused", dict(date=repr(ways[w])))
                        continue
                    got = c.call(what, lambda: hm.IGRF14(ways[w]).coefficients)
                    if got is None:
                        continue
                    want = expected(tabs, k, second + L(micro) / 10 ** 6)
                    for name, a, b in zip("gh", got, want):
                        c.close(a, b, f"{what}: {name} coefficients", rtol=1e-12, atol=1e-9)
                    c.validated(1, "instant", dict(date=repr(ways[w]), epoch=k["epoch"], elapsed=k["elapsed"]))
        finally:
            undo()
    return part


def reading(c):
    """The table of coefficients in files of any line order."""
    from harmonica._spherical_harmonics.igrf import load_igrf

    g = rng(1100)
    with tempfile.TemporaryDirectory(prefix="igrf-") as folder:
        for trial in range(6):
            coeffs = ic.coefficients(trial + 100 * vlib.SEED)
            keys = list(coeffs)
            if trial:
                keys = [keys[i] for i in g.permutation(len(keys))]
            path = pathlib.Path(folder) / "c.txt"
            ic.write(path, {k: coeffs[k] for k in keys})
            got = c.call("load_igrf", load_igrf, path)
            if got is None:
                continue
            tabs = tables(coeffs)
            c.equal([int(y) for y in got[0]], ic.YEARS, "epochs of the coefficient file")
            for name, a, b in (("g", got[1], tabs["g"][:-1]), ("h", got[2], tabs["h"][:-1]), ("variation of g", got[3], tabs["g"][-1]), ("variation of h", got[4], tabs["h"][-1])):
                c.close(a, b.astype(float), f"{name} of the coefficient file", rtol=1e-15)
            c.validated(1, "file")


def lives(cases, when):
    def part(c):
        import harmonica as hm

        g = rng(1101)
        coeffs = ic.coefficients(vlib.SEED + 1)
        tabs = tables(coeffs)
        undo = ic.install(hm, coeffs)
        try:
            points = tuple(g.uniform(a, b, 5) for a, b in ((-180, 360), (-90, 90), (0, 1e5)))
            first = {}
            for r in {tuple(s["range"]) for k in cases for s in k["trail"]}:
                for d, k in when.items():
                    m = hm.IGRF14(k["text"], min_degree=r[0], max_degree=r[1])
                    first[d, r] = (np.array(m.predict(points)), m.grid((0, 40, -20, 60), 100.0, shape=(3, 4)))
            for case in cases:
                models = {}
                for s in case["trail"]:
                    r, k = tuple(s["range"]), when[s["date"]]
                    what = f"{s['op']} of the model of {k['text']}, degrees {r}, after {[(t['op'], t['slot']) for t in case['trail']]}"
                    if s["op"] == "make":
                        models[s["slot"]] = hm.IGRF14(k["text"], min_degree=r[0], max_degree=r[1])
                    elif s["op"] == "coefficients":
                        got = models[s["slot"]].coefficients
                        want = expected(tabs, k, 0, top=r[1])
                        c.close(got[0], want[0], what, rtol=1e-12, atol=1e-9)
                        c.close(got[1], want[1], what, rtol=1e-12, atol=1e-9)
                    elif s["op"] == "predict":
                        c.close(np.array(models[s["slot"]].predict(points)), first[s["date"], r][0], what, rtol=1e-10, atol=1e-8)
                    else:
                        got, want = models[s["slot"]].grid((0, 40, -20, 60), 100.0, shape=(3, 4)), first[s["date"], r][1]
                        for name in ("b_east", "b_north", "b_up"):
                            c.close(got[name].values, want[name].values, what, rtol=1e-10, atol=1e-8)
                c.validated(1, "history", case["trail"])
        finally:
            undo()
    return part


def fields(cases):
    """The field itself is piecewise linear: at an instant it is the mean of the fields at the epochs, weighted by elapsed time."""
    def part(c):
        import harmonica as hm

        g = rng(1102)
        undo = ic.install(hm, ic.coefficients(vlib.SEED + 2))
        try:
            points = tuple(g.uniform(a, b, 7) for a, b in ((-180, 360), (-90, 90), (0, 1e5)))
            epochs = {y: np.array(hm.IGRF14(f"{y}-01-01").predict(points)) for y in ic.YEARS}
            late = np.array(hm.IGRF14("2027-01-01").predict(points))
            for k in cases:
                date = datetime.datetime(*k["civil"], *divmod(k["minute"], 60))
                got = c.call(f"field on {date}", lambda: np.array(hm.IGRF14(date).predict(points)))
                if got is None:
                    continue
                y = k["epoch"]
                if y == ic.YEARS[-1]:
                    want = epochs[y] + (late - epochs[y]) * (k["elapsed"] / (730 * 1440.0))
                else:
                    want = epochs[y] + (epochs[y + 5] - epochs[y]) * (k["elapsed"] / k["length"])
                c.close(got, want, f"field on {date}", rtol=1e-9, atol=1e-6)
                c.validated(1, "field")
        finally:
            undo()
    return part


def check(c):
    g = rng(1103)
    cases = c.tlc("Instants", constants=dict(Days=days(g), Minutes="{0, 1, 720, 1439}", Offsets="{0, 330, -720, 840, -1}", FirstYear=1900, LastEpoch=2025, Step=5),
                  invariants=["RoundTrip", "Calendar", "Back", "Fraction", "Joined", "Emit"], properties=["Same"]).cases
    good = [k for k in cases if k["valid"] and k["offset"] == 9999]
    when = {}
    for d, i in enumerate(g.permutation(len(good))[:2]):
        k = good[i]
        when[d + 1] = dict(k, text=datetime.datetime(*k["civil"], *divmod(k["minute"], 60)).isoformat())
    short = c.tlc("IgrfLife", constants=dict(Dates="1..2", Ranges="{<<1, 4>>, <<2, 6>>}", Slots='{"a", "b"}', MaxLen=3), invariants=["Own", "Emit"]).cases
    long = c.tlc("IgrfLife", constants=dict(Dates="1..2", Ranges="{<<1, 4>>, <<2, 6>>, <<1, 13>>}", Slots='{"a", "b", "c"}', MaxLen=12), invariants=["Own", "Emit"], simulate=20 if THOROUGH else 4, depth=13).cases
    g.shuffle(long)
    n = 6
    c.parts(reading, lives(short + long[:40], when), fields([good[i] for i in g.permutation(len(good))[:150]]), *[instants(cases[i::n], 1110 + i) for i in range(n)])
    c.require("instant", 2000)
    c.require("refused", 100)
    c.require("history", 300)
    c.require("field", 100)
    c.require("file", 6)
