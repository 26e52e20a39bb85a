"""P07: clip, aschunks and resize keep every retained value at its world position."""
import numpy as np
from core import *
from rg import *


def gen_clip(rng):
    g = gen_grid(rng, maxn=8)
    # box in index space around/inside the grid, mapped to world coordinates
    return {"g": g, "f": [rng.uniform(-0.3, 1.3) for _ in range(4)], "snap": rng.random() < 0.3}


def cells_world(g, a):
    """value of every cell keyed by its centre in the frame of grid *g*"""
    X, Y = g.center_coords()
    return X, Y


def check_clip(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    x0, y0, x1, y1 = g.bbox()
    f = c["f"]
    xs = sorted([x0 + f[0] * (x1 - x0), x0 + f[1] * (x1 - x0)])
    ys = sorted([y0 + f[2] * (y1 - y0), y0 + f[3] * (y1 - y0)])
    if c["snap"]:
        xs = [math.floor(v * 4) / 4 + 1 / 64. for v in xs]
        ys = [math.floor(v * 4) / 4 + 1 / 64. for v in ys]
    X, Y = g.center_coords()
    tol = 1e-6
    inside = (X > xs[0] + tol) & (X < xs[1] - tol) & (Y > ys[0] + tol) & (Y < ys[1] - tol)
    border = ((abs(X - xs[0]) <= tol) | (abs(X - xs[1]) <= tol) | (abs(Y - ys[0]) <= tol) | (abs(Y - ys[1]) <= tol))
    if border.any():
        return False
    r = g.clip(xs[0], xs[1], ys[0], ys[1])
    ensure(tuple(r.transform[2:]) == tuple(T[2:]), "resolution/skew changed: %s", r.transform)
    ensure(r.nbands == nb, "bands %d", r.nbands)
    ensure(eqv(float(r.nodata), float(g.nodata)), "nodata changed")
    v = r[:, :, :]
    if v.size == 0:
        ensure(not inside.any(), "clip is empty but %d cells are inside", int(inside.sum()))
        return False
    # offset in cells
    T2 = r.transform
    det = T[2] * T[3] - T[4] * T[5]
    ux, uy = T2[0] - T[0], T2[1] - T[1]
    oj = (T[3] * ux - T[4] * uy) / det
    oi = (T[2] * uy - T[5] * ux) / det
    ensure(abs(oi - round(oi)) < 1e-6 and abs(oj - round(oj)) < 1e-6, "origin moved by (%r, %r) cells", oi, oj)
    oi, oj = int(round(oi)), int(round(oj))
    h, w = v.shape[:2]
    ensure(0 <= oi and oi + h <= ny and 0 <= oj and oj + w <= nx, "clip covers rows %d:%d columns %d:%d of a %dx%d grid",
           oi, oi + h, oj, oj + w, ny, nx)
    ensure(same(v, a[oi:oi + h, oj:oj + w, :]), "values differ from the cells at the same world position")
    cov = np.zeros((ny, nx), dtype=bool)
    cov[oi:oi + h, oj:oj + w] = True
    ensure(not (inside & ~cov).any(), "cells %s have their centre inside the box but were dropped",
           np.argwhere(inside & ~cov).tolist()[:4])
    if T[4] == T[5] == 0:
        ensure(not (cov & ~inside).any(), "cells %s have their centre outside the box but were kept",
               np.argwhere(cov & ~inside).tolist()[:4])
    r[:, :, :] = 1
    ensure(same(g[:, :, :], a), "writing to the clip changed the grid")


def gen_chunks(rng):
    g = gen_grid(rng, maxn=9)
    size = rng.choice([None, [rng.randint(1, 6), rng.randint(1, 6)]])
    ov = [0, 0] if size is None else [rng.randint(0, size[0] - 1), rng.randint(0, size[1] - 1)]
    return {"g": g, "size": size, "ov": ov, "copy": rng.choice([True, False])}


def check_chunks(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    kw = {"copy": c["copy"]}
    if c["size"] is not None:
        kw["size"] = tuple(c["size"])
        kw["overlap"] = tuple(c["ov"])
    count = np.zeros((ny, nx), dtype=int)
    det = T[2] * T[3] - T[4] * T[5]
    for ch in g.aschunks(**kw):
        v = ch[:, :, :]
        T2 = ch.transform
        ensure(tuple(T2[2:]) == tuple(T[2:]), "resolution/skew changed")
        ux, uy = T2[0] - T[0], T2[1] - T[1]
        oj = (T[3] * ux - T[4] * uy) / det
        oi = (T[2] * uy - T[5] * ux) / det
        ensure(abs(oi - round(oi)) < 1e-6 and abs(oj - round(oj)) < 1e-6, "origin moved by (%r, %r) cells", oi, oj)
        oi, oj = int(round(oi)), int(round(oj))
        h, w = v.shape[:2]
        ensure(h > 0 and w > 0 and 0 <= oi and oi + h <= ny and 0 <= oj and oj + w <= nx, "chunk outside the grid")
        if c["size"] is not None:
            ensure(w <= c["size"][0] and h <= c["size"][1], "chunk of %dx%d exceeds %s", w, h, c["size"])
        ensure(same(v, a[oi:oi + h, oj:oj + w, :]), "chunk at (%d, %d) holds other values than the grid", oi, oj)
        ensure(eqv(float(ch.nodata), float(g.nodata)) and ch.nbands == nb, "nodata / bands")
        count[oi:oi + h, oj:oj + w] += 1
    ensure((count > 0).all(), "cells %s are in no chunk", np.argwhere(count == 0).tolist()[:4])
    if c["ov"] == [0, 0]:
        ensure((count == 1).all(), "cells %s are in several chunks", np.argwhere(count > 1).tolist()[:4])


def gen_resize(rng):
    g = gen_grid(rng, maxn=7, skew=False, neg=False)
    T = g["T"]
    q = rng.choice([1, 1, 4])
    n = [rng.randint(-4 * q, g["nx"] * q + 4) / q for _ in range(1)] + [rng.randint(-4 * q, g["ny"] * q + 4) / q]
    return {"g": g, "off": n, "size": [rng.randint(1, 10), rng.randint(1, 10)], "part": rng.choice([0, 0, 0.25])}


def check_resize(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    ox, oy = c["off"]
    x0, y0 = T[0] + ox * T[2], T[1] + oy * T[3]
    w, h = c["size"]
    x1, y1 = x0 + (w - c["part"]) * T[2], y0 + (h - c["part"]) * T[3]
    r = g.resize((x0, y0, x1, y1))
    # where the box spans a whole number of cells up to rounding, it may end one cell later
    up = lambda a, b, d: range(int(math.ceil((b - a) / d - 1e-9)), int(math.ceil((b - a) / d + 1e-9)) + 1)
    ensure(r.size[0] in (up(y0, y1, T[3]) if T[3] % 0.25 else [h]) and r.size[1] in (up(x0, x1, T[2]) if T[2] % 0.25 else [w]),
           "size %s, expected %s", r.size, (h, w))
    h, w = r.size
    ensure(close(r.transform[0], x0) and close(r.transform[1], y0) and tuple(r.transform[2:]) == tuple(T[2:]),
           "transform %s", r.transform)
    v = r[:, :, :]
    ensure(v.shape == (h, w, nb), "shape %s", v.shape)
    fx, fy = ox % 1, oy % 1
    if abs(fx - 0.5) < 1e-6 or abs(fy - 0.5) < 1e-6:
        return False
    for i in range(h):
        for j in range(w):
            si, sj = int(round(i + oy)), int(round(j + ox))
            inside = 0 <= si < ny and 0 <= sj < nx
            for b in range(nb):
                e = float(a[si, sj, b]) if inside else float(g.nodata)
                ensure(eqv(float(v[i, j, b]), e), "cell (%d, %d) band %d: %r, expected %r", i, j, b, float(v[i, j, b]), e)


CLAUSES = [
    Clause("clip", "clip keeps every cell whose centre is in the box (exactly those without skew), at its world position",
           gen_clip, check_clip, quick=2500, thorough=100000),
    Clause("aschunks", "chunks hold the grid's values at their world position and cover every cell (once without overlap)",
           gen_chunks, check_chunks, quick=1500, thorough=60000),
    Clause("resize", "resize keeps values at the nearest cell of the new grid and fills the rest with nodata",
           gen_resize, check_resize, quick=1500, thorough=60000),
]
