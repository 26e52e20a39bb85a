"""Raster case generation and construction."""
import math
import numpy as np
from core import *
from karta.raster.grid import RegularGrid, get_nodata
from karta.raster.band import SimpleBand, CompressedBand

RES = [0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0]
DEC = [0.1, 0.3, 0.7, 1.1, 1 / 3., 30.3]
DTYPES = ["float64", "float32", "int16", "int32", "uint8", "uint16", "int64", "uint32"]


def gen_transform(rng, skew=True, neg=True, square=False):
    dec = rng.random() < 0.2        # resolutions that are no binary fractions
    res = DEC if dec else RES
    dx = rng.choice(res)
    dyy = dx if square else rng.choice(res)
    if neg and rng.random() < 0.3:
        dx = -dx
    if neg and rng.random() < 0.3:
        dyy = -dyy
    sx = sy = 0.0
    if skew and rng.random() < 0.5:
        while True:
            sx, sy = rng.choice([0, 0.25, -0.25, 0.5, 1, -1.5, 2]), rng.choice([0, 0.25, -0.25, 0.5, -1, 1.5, 2])
            if abs(dx * dyy - sx * sy) > 0.05:
                break
        if not square and sx * sy != 0 and rng.random() < 0.15:     # (near) quarter turns
            dx = rng.choice([0.0, dx])
            dyy = 0.0
    if dec:
        return [rng.randint(-999, 999) / 10., rng.randint(-999, 999) / 30., dx, dyy, float(sx), float(sy)]
    return [dy(rng, -100, 100), dy(rng, -100, 100), dx, dyy, float(sx), float(sy)]


def gen_grid(rng, maxn=9, minn=1, skew=True, neg=True, bands=(1, 1, 1, 2, 3), dtypes=DTYPES,
             holes=None, square=False, kinds=("simple", "comp", "chunk")):
    kind = rng.choice(kinds)
    if kind == "chunk":
        kind = ["chunk", rng.randint(1, 5), rng.randint(1, 5)]
    return {"T": gen_transform(rng, skew, neg, square), "ny": rng.randint(minn, maxn), "nx": rng.randint(minn, maxn),
            "nb": rng.choice(bands), "dtype": rng.choice(dtypes), "band": kind,
            "nodata": rng.choice([None, "val"]), "seed": rng.randint(0, 10**9),
            "holes": rng.choice([0, 0, 0.2, 0.5, 1.0]) if holes is None else holes}


def nodata_of(spec):
    dt = np.dtype(spec["dtype"]).type
    if spec["nodata"] is None:
        return get_nodata(dt)
    if spec["nodata"] == "val":
        return -9 if np.issubdtype(dt, np.signedinteger) or np.issubdtype(dt, np.floating) else 250
    return spec["nodata"]


def expected_default_nodata(dt):
    if np.issubdtype(dt, np.unsignedinteger):
        return np.iinfo(dt).max
    if np.issubdtype(dt, np.integer):
        return np.iinfo(dt).min
    return float("nan")


def array_of(spec):
    dt = np.dtype(spec["dtype"]).type
    r = np.random.RandomState(spec["seed"] % (2**31))
    shape = (spec["ny"], spec["nx"], spec["nb"])
    if np.issubdtype(dt, np.floating):
        a = (r.randint(0, 1600, size=shape) / 8.0 - spec.get("shift", 0)).astype(dt)
    else:
        a = r.randint(0, 200, size=shape).astype(dt)
    if spec["holes"] > 0:
        h = r.random_sample(shape) < spec["holes"]
        nd = spec["nodata"]
        nd = nodata_of(spec) if nd is not None else expected_default_nodata(dt)
        a[h] = nd
    return a


def mkband(kind, size, dtype, **kw):
    if kind == "simple":
        return SimpleBand(size, dtype, **kw)
    if kind == "comp":
        return CompressedBand(size, dtype, **kw)
    return CompressedBand(size, dtype, chunksize=tuple(kind[1:]), **kw)


def build(spec, crs=None):
    a = array_of(spec)
    dt = a.dtype.type
    nd = None if spec["nodata"] is None else nodata_of(spec)
    kw = {} if crs is None else {"crs": crs}
    if spec["band"] == "simple":
        g = RegularGrid(spec["T"], values=a.copy(), nodata_value=nd, bandclass=SimpleBand, **kw)
    elif spec["band"] == "comp":
        g = RegularGrid(spec["T"], values=a.copy(), nodata_value=nd, **kw)
    else:
        bands = []
        for b in range(a.shape[2]):
            bd = mkband(spec["band"], a.shape[:2], dt)
            bd.setblock(0, 0, a[:, :, b].copy())
            bands.append(bd)
        g = RegularGrid(spec["T"], bands=bands, nodata_value=nd, **kw)
    return g, a


def valid(a, nd):
    if isinstance(nd, float) and math.isnan(nd):
        return ~np.isnan(a)
    return a != nd


def same(a, b):
    """equal shape and values, NaN equal to NaN"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


def eqv(a, b):
    return (a == b) or (a != a and b != b)


def centre(T, i, j):
    return (T[0] + (j + 0.5) * T[2] + (i + 0.5) * T[4],
            T[1] + (i + 0.5) * T[3] + (j + 0.5) * T[5])


def frac(T, i, j):
    """world coordinates of (row, column) position, centre-referenced"""
    return centre(T, i, j)
