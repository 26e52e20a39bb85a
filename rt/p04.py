"""P04: extents and bounding boxes are the tight hull of the cells."""
import numpy as np
from core import *
from rg import *


def gen(rng):
    return {"g": gen_grid(rng, maxn=7)}


def hull(pts):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    return min(xs), max(xs), min(ys), max(ys)


def tclose(a, b):
    return all(close(float(p), float(q)) for p, q in zip(a, b))


def check(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx = a.shape[:2]
    cen = [centre(T, i, j) for i in range(ny) for j in range(nx)]
    ver = [centre(T, i - 0.5, j - 0.5) for i in range(ny + 1) for j in range(nx + 1)]
    e = g.extent()
    ensure(tclose(e, hull(cen)), "extent() = %s, centres span %s", e, hull(cen))
    ensure(tclose(g.extent(reference="center", crs=g.crs), hull(cen)), "extent(center)")
    h = hull(ver)
    e = g.extent(reference="edge")
    ensure(tclose(e, h), "extent(edge) = %s, cell corners span %s", e, h)
    b = g.bbox()
    ensure(tclose(b, (h[0], h[2], h[1], h[3])), "bbox() = %s, cell corners span %s", b, h)
    ok = valid(a, g.nodata).all(axis=-1)
    vc = [centre(T, i, j) for i in range(ny) for j in range(nx) if ok[i, j]]
    if not vc:
        return False
    h = hull(vc)
    e = g.data_extent()
    ensure(tclose(e, h), "data_extent() = %s, valid centres span %s", e, h)
    vv = [centre(T, i + di, j + dj) for i in range(ny) for j in range(nx) if ok[i, j]
          for di in (-.5, .5) for dj in (-.5, .5)]
    h = hull(vv)
    e = g.data_extent(reference="edge")
    ensure(tclose(e, h), "data_extent(edge) = %s, corners of valid cells span %s", e, h)
    e = g.data_bbox()
    ensure(tclose(e, (h[0], h[2], h[1], h[3])), "data_bbox() = %s, corners of valid cells span %s", e, h)


CLAUSES = [Clause("extents", "extent/bbox are the tight hull of cell centres/corners; the data variants of those of "
                  "cells with data in every band", gen, check, quick=3000, thorough=100000)]
