"""Results for many items are those of handing the items over in pieces (specification: Bulk.tla)."""
import numpy as np

from vlib import THOROUGH


def plans(c, sizes, pieces=(97, 997, 4099, 20011)):
    """{n: cuts} for the numbers of items, from random runs of the machine."""
    small = c.tlc("Bulk", constants=dict(Sizes="0..9", Pieces="{1,2,4}"), invariants=["Ordered", "InRange", "Once"])
    assert small.distinct > 100
    out = {}
    for n in sizes:
        r = c.tlc("Bulk", constants=dict(Sizes={n}, Pieces=set(pieces)), invariants=["Once", "Emit"], simulate=1, depth=2000)
        out[n] = r.cases[0]["cuts"]
        assert out[n][0] == 0 and out[n][-1] == n
    return out


def joined(fn, items, cuts):
    """fn applied to consecutive pieces of the arrays ``items``, joined along the last axis."""
    return np.concatenate([np.asarray(fn(tuple(a[i:j] for a in items)), float) for i, j in zip(cuts, cuts[1:])], axis=-1)


def added(fn, items, cuts):
    """fn applied to consecutive pieces of the arrays ``items``, added up with the sum of absolute values."""
    total = size = 0
    for i, j in zip(cuts, cuts[1:]):
        r = np.asarray(fn(tuple(a[i:j] for a in items)), float)
        total, size = total + r, size + np.abs(r)
    return total, size


def mapped(c, name, fn, items, cuts, rtol=1e-12, scale=None, kind="bulk"):
    """fn of all items at once against pieces, at every position."""
    got = c.call(f"{name} of {len(items[0])} items", fn, items)
    if got is None:
        return
    want = joined(fn, items, cuts)
    c.close(got, want, f"{name} of {len(items[0])} items at once, against pieces", rtol=rtol,
            scale=float(np.nanmax(np.abs(want))) if scale is None else scale)
    c.validated(1, kind)


def summed(c, name, fn, items, cuts, rtol=1e-9, kind="bulk"):
    """fn of all sources at once against the sum over pieces."""
    got = c.call(f"{name} of {len(items[0])} sources", fn, items)
    if got is None:
        return
    want, size = added(fn, items, cuts)
    c.close(got, want, f"{name} of {len(items[0])} sources at once, against pieces", rtol=rtol, scale=float(np.max(size)))
    c.validated(1, kind)


LARGE = 1_000_003 if THOROUGH else 200_003
