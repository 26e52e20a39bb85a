"""P08: merge."""
import numpy as np
from core import *
from rg import *
from karta.raster.grid import merge


def gen(rng):
    n = rng.randint(1, 4)
    base = gen_grid(rng, maxn=5, skew=False, neg=False, dtypes=["float64", "float32", "int32", "int16", "uint8", "uint16"])
    gs = [base]
    offs = [[0, 0]]
    for _ in range(n - 1):
        h = dict(base, ny=rng.randint(1, 5), nx=rng.randint(1, 5), seed=rng.randint(0, 10**9))
        o = [rng.randint(-6, 6), rng.randint(-6, 6)]
        h["T"] = [base["T"][0] + o[0] * base["T"][2], base["T"][1] + o[1] * base["T"][3]] + base["T"][2:]
        gs.append(h)
        offs.append(o)
    return {"gs": gs, "offs": offs, "w": rng.choice([None, [rng.choice([0.5, 1, 2, 3]) for _ in gs]])}


def check(c):
    gs = [build(s) for s in c["gs"]]
    T = c["gs"][0]["T"]
    nb = gs[0][1].shape[2]
    w = c["w"] or [1.0] * len(gs)
    m = merge([g for g, _ in gs], **({} if c["w"] is None else {"weights": c["w"]}))
    x0 = min(o[0] for o in c["offs"])
    y0 = min(o[1] for o in c["offs"])
    x1 = max(o[0] + a.shape[1] for o, (_, a) in zip(c["offs"], gs))
    y1 = max(o[1] + a.shape[0] for o, (_, a) in zip(c["offs"], gs))
    ensure(tuple(m.size) == (y1 - y0, x1 - x0), "size %s, the union spans %s", m.size, (y1 - y0, x1 - x0))
    ensure(close(m.transform[0], T[0] + x0 * T[2]) and close(m.transform[1], T[1] + y0 * T[3])
           and tuple(m.transform[2:]) == tuple(T[2:]), "transform %s", m.transform)
    ensure(m.nbands == nb, "bands %d", m.nbands)
    v = m[:, :, :]
    isint = gs[0][1].dtype.kind in "iu"
    nd = gs[0][0].nodata
    ensure(v.dtype == gs[0][1].dtype, "dtype %s", v.dtype)
    oks = [valid(a, nd).all(axis=-1) for _, a in gs]
    for i in range(y1 - y0):
        for j in range(x1 - x0):
            for b in range(nb):
                s = sw = 0.0
                for o, (g, a), wt, ok in zip(c["offs"], gs, w, oks):
                    p, q = i + y0 - o[1], j + x0 - o[0]
                    if 0 <= p < a.shape[0] and 0 <= q < a.shape[1] and ok[p, q]:
                        s += wt * float(a[p, q, b])
                        sw += wt
                got = float(v[i, j, b])
                if sw == 0:
                    ensure(eqv(got, float(nd)), "cell (%d, %d) is covered by no data but holds %r", i, j, got)
                else:
                    e = s / sw
                    ensure(abs(got - e) <= (0.5 if isint else 0) + 1e-4 * max(1, abs(e)), "cell (%d, %d) band %d: %r, mean of the overlapping grids %r",
                           i, j, b, got, e)
    for g, a in gs:
        ensure(same(g[:, :, :], a), "merge changed an input grid")


def gen_bad(rng):
    c = gen(rng)
    while len(c["gs"]) < 2:
        c = gen(rng)
    c["how"] = rng.choice(["res", "off", "bands"])
    return c


def check_bad(c):
    gs = [dict(s) for s in c["gs"]]
    if c["how"] == "res":
        gs[-1]["T"] = gs[-1]["T"][:2] + [gs[-1]["T"][2] * 2] + gs[-1]["T"][3:]
    elif c["how"] == "off":
        gs[-1]["T"] = [gs[-1]["T"][0] + 0.25 * gs[-1]["T"][2]] + gs[-1]["T"][1:]
    else:
        gs[-1]["nb"] = gs[-1]["nb"] + 1
    try:
        merge([build(s)[0] for s in gs])
    except Exception:
        return
    raise Fail("grids that cannot be mosaicked (%s) were merged" % c["how"])


CLAUSES = [Clause("merge", "every cell is the weighted mean of the grids with data there; nodata elsewhere; the extent "
                  "is the union", gen, check, quick=1500, thorough=60000, weight=3),
           Clause("reject", "grids not an integer translation apart are rejected", gen_bad, check_bad, quick=200, thorough=3000)]
