"""Prism layers: geometry after every history of Layer.tla."""
from checks import layercommon as lc
from vlib import THOROUGH


def check(c):
    import harmonica as hm

    ex, si = lc.spec(c, 11)
    kinds = [lc.Prism(hm), lc.Prism(hm), lc.Wafer(hm)]
    pick = si[: 6000 if THOROUGH else 700] + ex[: 8000 if THOROUGH else 900]
    for n, case in enumerate(pick):
        k = kinds[n % 3]
        ds = lc.replay(c, k, case, n)
        if ds is None:
            continue
        lc.geometry(c, k, ds, case)
        c.validated(1, case["op"], case if n == 3 else None)
    lc.bad_grids(c, kinds[0])
    for op in lc.OPS:
        c.require("edit:" + op, 20)
