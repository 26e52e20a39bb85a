"""P28: masking by polygons."""
import numpy as np
from core import *
from rg import *
from karta.vector.geometry import Polygon, Multipolygon


def gen(rng):
    g = gen_grid(rng, minn=4, maxn=14, neg=rng.random() < 0.15, holes=0, bands=(1, 1, 2), dtypes=["float64", "float32", "int32", "uint8"])
    polys = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        n = rng.randint(3, 7)
        ci, cj = rng.uniform(-2, g["ny"] + 2), rng.uniform(-2, g["nx"] + 2)
        star = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        R = rng.uniform(2, 9)
        poly = [[ci + R * rng.uniform(0.4, 1) * math.sin(t), cj + R * rng.uniform(0.4, 1) * math.cos(t)] for t in star]
        if rng.random() < 0.5:
            poly = poly[::-1]
        k = rng.randrange(n)
        polys.append(poly[k:] + poly[:k])
    return {"g": g, "polys": polys, "form": rng.choice(["list", "multi", "single"]), "inplace": rng.random() < 0.5}


def inside(x, y, P):
    w = False
    for (x0, y0), (x1, y1) in zip(P, P[1:] + P[:1]):
        if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
            w = not w
    return w


def segdist(x, y, P):
    m = 1e300
    for (x0, y0), (x1, y1) in zip(P, P[1:] + P[:1]):
        L = (x1 - x0)**2 + (y1 - y0)**2
        t = 0 if L == 0 else max(0, min(1, ((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / L))
        m = min(m, math.hypot(x - x0 - t * (x1 - x0), y - y0 - t * (y1 - y0)))
    return m


def cross(P):
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(P, P[1:] + P[:1]))


def simple(P):
    # star-shaped around its first construction only if angular gaps < pi; reject self-crossing rings
    n = len(P)
    def orient(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            a, b, c, d = P[i], P[(i + 1) % n], P[j], P[(j + 1) % n]
            if orient(a, b, c) * orient(a, b, d) <= 0 and orient(c, d, a) * orient(c, d, b) <= 0:
                return False
    return abs(cross(P)) > 1e-3


def check(c, mirrored=False):
    g, a = build(c["g"])
    T = c["g"]["T"]
    if (T[2] < 0 or T[3] < 0) and (T[4] or T[5]):
        return False
    TW = T
    if mirrored:
        TW = list(T)
        if T[2] < 0:
            TW[0], TW[2] = T[0] + c["g"]["nx"] * T[2], -T[2]
        if T[3] < 0:
            TW[1], TW[3] = T[1] + c["g"]["ny"] * T[3], -T[3]
    ny, nx, nb = a.shape
    polys = [[centre(T, *p) for p in P] for P in c["polys"]]
    if c["form"] == "single":
        polys = polys[:1]
    if not all(simple(P) for P in polys):
        return False
    ps = [Polygon(P) for P in polys]
    arg = ps[0] if c["form"] == "single" else ps
    if c["form"] == "multi":
        arg = Multipolygon([[P] for P in polys])
    r = g.mask_by_poly(arg, inplace=c["inplace"])
    if c["inplace"]:
        ensure(r is g, "inplace returns another grid")
    else:
        ensure(same(g[:, :, :], a), "the grid changed")
    v = r[:, :, :]
    nd = g.nodata
    # boundary cells are a matter of rasterisation: judge cells farther than a cell diagonal and a bit
    diag = 1.5 * max(math.hypot(T[2] + T[4], T[3] + T[5]), math.hypot(T[2] - T[4], T[3] - T[5]))
    judged = 0
    for i in range(ny):
        for j in range(nx):
            x, y = centre(TW, i, j)
            if min(segdist(x, y, P) for P in polys) <= diag:
                ensure(all(same(v[i, j, b], a[i, j, b]) or eqv(float(v[i, j, b]), float(nd)) for b in range(nb)), "cell (%d, %d) got another value", i, j)
                continue
            judged += 1
            e = any(inside(x, y, P) for P in polys)
            for b in range(nb):
                ensure(eqv(float(v[i, j, b]), float(a[i, j, b] if e else nd)), "cell (%d, %d) is %s every polygon but holds %r (source %r, nodata %r)",
                       i, j, "inside" if e else "outside", float(v[i, j, b]), float(a[i, j, b]), nd)
    return judged > 0


def known(c):
    T = c["g"]["T"]
    if T[2] < 0 or T[3] < 0:
        # the listed finding: the mask is that of the grid with the sign of the
        # resolution dropped; any other wrong result is a violation
        try:
            check(c, mirrored=True)
        except Fail:
            return None
        return "mask_by_poly-negative-resolution"


CLAUSES = [Clause("mask", "cells clear of the boundary are kept iff they are inside a polygon; others become nodata in every band",
                  gen, check, quick=2500, thorough=80000, known=known,
                  fixed=[{"g": {"T": [0.0, 12.0, 1.0, -1.0, 0.0, 0.0], "ny": 12, "nx": 12, "nb": 1, "dtype": "float64", "band": "simple",
                                "nodata": None, "seed": 1, "holes": 0}, "polys": [[[1.0, 1.0], [5.0, 1.0], [5.0, 11.0], [1.0, 11.0]]],
                          "form": "single", "inplace": False}])]
