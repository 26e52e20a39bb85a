"""P02: grid indexing agrees with the (row, column, band) array."""
import numpy as np
from core import *
from rg import *


def gslice(rng, n, step=True):
    def e():
        return rng.choice([None, rng.randint(-n - 2, n + 2), rng.randint(0, n)])
    st = rng.choice([None, None, 1, 2, 3, -1, -2, -3]) if step else rng.choice([None, None, 1])
    return ["s", e(), e(), st]


def gkey(rng, g, step):
    n = [g["ny"], g["nx"], g["nb"]]
    form = rng.choice(["2", "2", "3", "3", "slice", "mask2", "mask3"])
    if form == "slice":
        return {"f": "slice", "k": [gslice(rng, n[0], step)]}
    if form.startswith("mask"):
        return {"f": form, "p": rng.choice([0, 0.3, 0.6, 1.0]), "seed": rng.randint(0, 10**6)}
    k = []
    for d in range(int(form)):
        if rng.random() < 0.45:
            k.append(["i", rng.randint(-n[d], n[d] - 1)])
        else:
            k.append(gslice(rng, n[d], step if d < 2 else True))
    return {"f": form, "k": k}


def mkkey(k, shape):
    if k["f"].startswith("mask"):
        r = np.random.RandomState(k["seed"])
        return r.random_sample(shape[:2] if k["f"] == "mask2" else shape) < k["p"]
    ks = tuple(slice(*x[1:]) if x[0] == "s" else x[1] for x in k["k"])
    return ks[0] if k["f"] == "slice" else ks


def gen_get(rng):
    g = gen_grid(rng, holes=0, maxn=8)
    return {"g": g, "key": gkey(rng, g, True)}


def npexp(a, key):
    if isinstance(key, tuple) and len(key) == 2:
        return a[key + (slice(None),)]
    return a[key]


def check_get(c):
    g, a = build(c["g"])
    key = mkkey(c["key"], a.shape)
    got = g[key]
    exp = npexp(a, key)
    ensure(np.shape(got) == exp.shape, "shape %s, expected %s", np.shape(got), exp.shape)
    ensure(same(got, exp), "g[%s] is %s, expected %s", c["key"], np.asarray(got).tolist(), exp.tolist())
    ensure(np.asarray(got).dtype == a.dtype, "dtype %s", np.asarray(got).dtype)
    ensure(same(g.values[key], exp), "g.values[%s] differs", c["key"])
    # a read result is independent of the grid
    if isinstance(got, np.ndarray) and got.size:
        got[...] = 1
        ensure(same(g[:, :, :], a), "writing to a read result changed the grid")
    return exp.size > 0


def gen_set(rng):
    g = gen_grid(rng, holes=0, maxn=8)
    key = gkey(rng, g, False)
    while key["f"] in ("2", "3") and any(x[0] == "s" and x[3] not in (None, 1) for x in key["k"][:2]):
        key = gkey(rng, g, False)
    return {"g": g, "key": key, "val": rng.choice(["scalar", "array"]), "vseed": rng.randint(0, 10**6)}


def check_set(c):
    g, a = build(c["g"])
    key = mkkey(c["key"], a.shape)
    ref = a.copy()
    r = np.random.RandomState(c["vseed"])
    f = c["key"]["f"]
    if f.startswith("mask"):
        if c["val"] == "scalar":
            v = 99
            ref[key] = v
        elif f == "mask2":
            v = r.randint(0, 100, size=(int(key.sum()), a.shape[2])).astype(a.dtype)
            if a.shape[2] == 1 and c["vseed"] % 2:
                v = v[:, 0]
                ref[key] = v[:, None]
            else:
                ref[key] = v
        else:
            v = r.randint(0, 100, size=int(key.sum())).astype(a.dtype)
            ref[key] = v
        g[key] = v
    else:
        fk = key if not isinstance(key, slice) else (key,)
        fk = tuple(fk) + (slice(None),) * (3 - len(fk))
        # expand ints so the region keeps three dimensions
        reg = tuple(slice(k % n, k % n + 1) if not isinstance(k, slice) else k for k, n in zip(fk, a.shape))
        shape = ref[reg].shape
        if c["val"] == "scalar":
            v = 99
            g[key] = v
            ref[reg] = v
        else:
            v = r.randint(0, 100, size=shape).astype(a.dtype)
            gv = v
            if shape[2] == 1 and c["vseed"] % 2:
                gv = v[:, :, 0]        # two-dimensional value for one band
            g[key] = gv
            ref[reg] = v
    got = g[:, :, :]
    ensure(same(got, ref), "after g[%s] = value (%s): %s, expected %s", c["key"], c["val"], got.tolist(), ref.tolist())
    for b in range(a.shape[2]):
        ensure(same(g.bands[b].getblock(0, 0, a.shape[0], a.shape[1]), ref[:, :, b]), "band %d", b)


def gen_bad(rng):
    g = gen_grid(rng, holes=0, maxn=6)
    d = rng.randint(0, 2)
    n = [g["ny"], g["nx"], g["nb"]]
    k = [["i", rng.randint(-m, m - 1)] for m in n]
    k[d] = ["i", rng.choice([n[d], n[d] + 1, -n[d] - 1, n[d] + 300])]
    return {"g": g, "key": {"f": "3", "k": k}}


def check_bad(c):
    g, a = build(c["g"])
    key = mkkey(c["key"], a.shape)
    raises(IndexError, lambda: g[key])
    raises(IndexError, lambda: g.__setitem__(key, 1))
    ensure(same(g[:, :, :], a), "a rejected assignment changed the grid")


def gen_iter(rng):
    return {"g": gen_grid(rng, holes=0, maxn=7)}


def check_iter(c):
    g, a = build(c["g"])
    rows = list(g.values)
    ensure(len(rows) == a.shape[0], "%d rows", len(rows))
    for i, r in enumerate(rows):
        exp = a[i, :, :].T
        ensure(same(r, exp), "row %d is %s, expected %s", i, np.asarray(r).tolist(), exp.tolist())
    ensure(tuple(g.size) == a.shape[:2] and g.nbands == a.shape[2], "size %s nbands %s", g.size, g.nbands)
    ensure(tuple(g.values.shape) == a.shape[:2] and g.values.dtype == a.dtype, "shape/dtype")
    h = g.copy()
    h[:, :, :] = 1
    ensure(same(g[:, :, :], a), "writing to a copy changed the grid")


CLAUSES = [
    Clause("get", "g[key] equals numpy indexing of the (rows, columns, bands) array", gen_get, check_get,
           quick=3000, thorough=150000, weight=2),
    Clause("set", "g[key] = v changes exactly the addressed cells to v", gen_set, check_set, quick=3000,
           thorough=150000, weight=2),
    Clause("bad", "integer indices out of range raise IndexError and change nothing", gen_bad, check_bad,
           quick=400, thorough=10000),
    Clause("iter", "iteration yields the rows in order; a copy is independent", gen_iter, check_iter,
           quick=400, thorough=10000),
]
