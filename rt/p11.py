"""P11: nodata semantics."""
import numpy as np
from core import *
from rg import *
from karta.raster.grid import get_nodata, RegularGrid


def gen(rng):
    return {"g": gen_grid(rng, maxn=6), "new": rng.choice([-1, 201, 0, 7]), "inplace": rng.random() < 0.5}


def check(c):
    g, a = build(c["g"])
    nd = g.nodata
    if c["g"]["nodata"] is None:
        ensure(eqv(float(nd), float(expected_default_nodata(a.dtype.type))), "default nodata %r for %s", nd, a.dtype)
    else:
        ensure(eqv(float(nd), float(nodata_of(c["g"]))), "nodata %r", nd)
    ensure(eqv(g.nodata_value, nd), "nodata_value")
    ok = valid(a, nd)
    ensure(same(g.data_mask_full, ok), "data_mask_full %s", g.data_mask_full.tolist())
    ensure(same(g.data_mask, ok.all(axis=-1)), "data_mask %s", g.data_mask.tolist())
    full = a[ok]
    both = a[ok.all(axis=-1)]
    mn, mx = g.minmax()
    if full.size:
        ensure(mn == full.min() and mx == full.max(), "minmax %s", (mn, mx))
    else:
        ensure(mn != mn and mx != mx, "minmax of an empty grid %s", (mn, mx))
    if both.size:
        ensure(g.min() == both.min() and g.max() == both.max(), "min/max %s %s", g.min(), g.max())
    else:
        ensure(g.min() != g.min() and g.max() != g.max(), "min/max of an empty grid")
    # apply
    f = lambda v: (v + 1).astype(v.dtype) if np.size(v) else v
    r = g.apply(f, inplace=c["inplace"])
    e = a.copy()
    e[ok] = (a[ok] + 1).astype(a.dtype)
    ensure(same(r[:, :, :], e), "apply: %s, expected %s", r[:, :, :].tolist(), e.tolist())
    if c["inplace"]:
        ensure(r is g, "apply(inplace=True) returns another grid")
    else:
        ensure(same(g[:, :, :], a), "apply changed the grid")
        ensure(tuple(r.transform) == tuple(g.transform) and eqv(r.nodata, nd), "apply changed the structure")


def check_set(c):
    g, a = build(c["g"])
    ok = valid(a, g.nodata)
    new = c["new"]
    if a.dtype.kind == "u" and new < 0:
        new = 254
    if a.dtype.kind == "f" and c["inplace"]:
        new = float("nan")
    r = g.set_nodata_value(new)
    ensure(r is g, "returns another object")
    e = np.where(ok, a, new)
    ensure(same(g[:, :, :].astype(float), e.astype(float)), "values after set_nodata_value: %s, expected %s", g[:, :, :].tolist(), e.tolist())
    ensure(eqv(float(g.nodata), float(new)) and eqv(float(g.nodata_value), float(new)), "nodata %r", g.nodata)
    ensure(same(g.data_mask_full, valid(e, float(new))), "mask after set_nodata_value")


def gen_add(rng):
    g = gen_grid(rng, maxn=6, dtypes=["float64", "float32", "int32", "int64"])
    h = dict(g, seed=rng.randint(0, 10**9), holes=rng.choice([0, 0.2]))
    return {"g": g, "h": h, "bad": rng.choice([None, None, None, "T", "size"])}


def check_add(c):
    g, a = build(c["g"])
    h = dict(c["h"])
    if c["bad"] == "T":
        h["T"] = [h["T"][0] + 1] + h["T"][1:]
    if c["bad"] == "size":
        h["nx"] += 1
    h, b = build(h)
    if c["bad"]:
        raises(ValueError, lambda: g + h)
        raises(ValueError, lambda: g - h)
        return
    ok = valid(a, g.nodata) & valid(b, h.nodata)
    for op, r, e in (("+", g + h, a + b), ("-", g - h, a - b)):
        e = e.copy()
        e[~ok] = g.nodata
        ensure(same(r[:, :, :], e), "g %s h: %s, expected %s", op, r[:, :, :].tolist(), e.tolist())
        ensure(tuple(r.transform) == tuple(g.transform) and eqv(r.nodata, g.nodata), "structure of the result")
    ensure(same(g[:, :, :], a) and same(h[:, :, :], b), "operands changed")


CLAUSES = [
    Clause("masks", "data masks, extremes and apply see exactly the cells that differ from nodata", gen, check,
           quick=2500, thorough=100000, weight=2),
    Clause("setnodata", "redefining nodata keeps data cells and moves missing ones", gen, check_set, quick=1000, thorough=30000),
    Clause("addsub", "sums and differences are cellwise, nodata where either operand is missing, refused on other structures",
           gen_add, check_add, quick=1000, thorough=30000),
]
