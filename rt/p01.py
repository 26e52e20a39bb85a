"""P01: a band returns exactly what was stored, for every sequence of block writes."""
import numpy as np
from core import *
from rg import mkband
from karta.raster.band import SimpleBand, CompressedBand

DT = ["float64", "float32", "int16", "int32", "uint8", "uint16", "int64", "uint32", "uint64", "int8", "float16"]


def gen(rng):
    kind = rng.choice(["simple", "comp", "chunk", "chunk", "chunk", "chunk"])
    ny, nx = rng.randint(1, 14), rng.randint(1, 14)
    if kind == "chunk":
        kind = ["chunk", rng.randint(1, 7), rng.randint(1, 7)]
    ops = []
    for _ in range(rng.randint(1, 6)):
        y0 = rng.randint(0, ny - 1)
        x0 = rng.randint(0, nx - 1)
        h = rng.randint(1, ny - y0)
        w = rng.randint(1, nx - x0)
        ops.append([rng.choice(["set", "set", "get"]), y0, x0, h, w, rng.randint(0, 10**6)])
    return {"kind": kind, "ny": ny, "nx": nx, "dtype": rng.choice(DT),
            "init": rng.choice([0, 1, 7]) if kind != "simple" else rng.choice([0, 1, 7]), "ops": ops}


def gen_big(rng):
    # default chunk size: windows around multiples of 256
    ny, nx = rng.randint(250, 600), rng.randint(250, 600)
    ops = []
    for _ in range(rng.randint(1, 4)):
        y0 = min(ny - 1, max(0, rng.choice([0, 256, 512]) + rng.randint(-3, 3)))
        x0 = min(nx - 1, max(0, rng.choice([0, 256, 512]) + rng.randint(-3, 3)))
        h = min(ny - y0, rng.choice([1, 2, 5, 255, 256, 257, 300]))
        w = min(nx - x0, rng.choice([1, 2, 5, 255, 256, 257, 300]))
        ops.append(["set", y0, x0, h, w, rng.randint(0, 10**6)])
    return {"kind": "comp", "ny": ny, "nx": nx, "dtype": rng.choice(["float32", "uint8", "int16"]),
            "init": rng.choice([0, 3]), "ops": ops}


def check(c):
    dt = np.dtype(c["dtype"]).type
    size = (c["ny"], c["nx"])
    b = mkband(c["kind"], size, dt, initval=dt(c["init"]))
    ref = np.full(size, c["init"], dtype=dt)
    ensure(tuple(b.size) == size, "size is %s, created with %s", b.size, size)
    for k, (op, y0, x0, h, w, s) in enumerate(c["ops"]):
        if op == "set":
            a = np.random.RandomState(s).randint(0, 100, size=(h, w)).astype(dt)
            keep = a.copy()
            b.setblock(y0, x0, a)
            ensure((a == keep).all(), "setblock changed its argument")
            ref[y0:y0 + h, x0:x0 + w] = a
        got = b.getblock(y0, x0, h, w)
        exp = ref[y0:y0 + h, x0:x0 + w]
        ensure(got.shape == exp.shape, "op %d: getblock%s has shape %s", k, (y0, x0, h, w), got.shape)
        ensure(got.dtype == np.dtype(dt), "op %d: dtype %s", k, got.dtype)
        ensure((got == exp).all(), "op %d: getblock%s returns %s instead of %s", k, (y0, x0, h, w),
               got.tolist(), exp.tolist())
    full = b.getblock(0, 0, *size)
    ensure((full == ref).all(), "whole band differs from what was stored: %s", np.argwhere(full != ref)[:5].tolist())
    # values kept by the band do not depend on the array that was stored
    a = np.full(size, 1, dtype=dt)
    b.setblock(0, 0, a)
    a[...] = 2
    ensure((b.getblock(0, 0, *size) == 1).all(), "band aliases the array it was given")
    # an empty window
    e = b.getblock(0, 0, 0, c["nx"])
    ensure(e.shape == (0, c["nx"]), "empty window has shape %s", e.shape)


CLAUSES = [
    Clause("blocks", "after any history of block writes every window reads back the last value written to each cell, "
           "or the initial value", gen, check, quick=6000, thorough=300000, weight=3),
    Clause("blocks256", "the same across the default 256-cell chunks", gen_big, check, quick=60, thorough=3000, weight=1),
]
