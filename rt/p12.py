"""P12: file round trips."""
import os, tempfile, shutil
import numpy as np
from core import *
from rg import *
from karta.raster.read import read_aai, read_geotiff, from_geotiffs
from karta.raster._aai import check_header
from karta.crs import Cartesian, LonLatWGS84, ProjectedCRS, GeographicalCRS
from karta.errors import GridError

TMP = tempfile.mkdtemp(prefix="kartart")
import atexit
atexit.register(shutil.rmtree, TMP, True)
UTM = ProjectedCRS("+proj=utm +zone=7 +north +datum=WGS84", "UTM 7N")


def gen_aai(rng):
    g = gen_grid(rng, maxn=6, skew=False, neg=False, square=True, bands=(1, 1, 2), dtypes=["float64", "float32"])
    g["nodata"] = rng.choice([None, "val"])
    g["shift"] = rng.choice([0, 25.5, 100])
    # 1/16 is never a cell value (cells are multiples of 1/8)
    return {"g": g, "ref": rng.choice(["center", "corner"]), "nd": rng.choice([None, None, -5.0625, 60.0625, 300.0625, -1])}


def check_aai(c):
    g, a = build(c["g"])
    fn = os.path.join(TMP, "a%d.asc" % os.getpid())
    if c["nd"] is None:
        g.to_aai(fn, reference=c["ref"])
    else:
        if np.any(a[:, :, 0] == c["nd"]):
            return
        g.to_aai(fn, reference=c["ref"], nodata_value=c["nd"])
    ensure(same(g[:, :, :], a), "writing changed the grid")
    r = read_aai(fn)
    os.remove(fn)
    ensure(tuple(r.size) == a.shape[:2], "size %s, written %s", r.size, a.shape[:2])
    ensure(all(close(p, q) for p, q in zip(r.transform, g.transform)), "transform %s, written %s", r.transform, g.transform)
    v = r[:, :, 0]
    ok = valid(a, g.nodata)[:, :, 0]
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if ok[i, j]:
                ensure(close(float(v[i, j]), float(a[i, j, 0]), 1e-6), "cell (%d, %d): %r, written %r", i, j, float(v[i, j]), float(a[i, j, 0]))
            else:
                ensure(eqv(float(v[i, j]), float(r.nodata)), "missing cell (%d, %d) read as %r", i, j, float(v[i, j]))


def gen_hdr(rng):
    return {"x": dy(rng), "y": dy(rng), "d": rng.choice(RES), "rx": rng.choice(["center", "corner"]),
            "ry": rng.choice(["center", "corner"])}


def check_hdr(c):
    h = {"ncols": 3, "nrows": 4, "cellsize": c["d"]}
    h["xll" + c["rx"]] = c["x"]
    h["yll" + c["ry"]] = c["y"]
    r = check_header(dict(h))
    for ax, ref, v in (("x", c["rx"], c["x"]), ("y", c["ry"], c["y"])):
        ensure(r[ax + "ll" + ref] == v, "given reference changed")
        ensure(close(r[ax + "llcenter"] - r[ax + "llcorner"], c["d"] / 2.0), "centre and corner of %s differ by %r", ax,
               r[ax + "llcenter"] - r[ax + "llcorner"])
    for miss in ("ncols", "nrows", "cellsize", "xll" + c["rx"], "yll" + c["ry"]):
        h2 = dict(h)
        del h2[miss]
        raises(ValueError, check_header, h2)


def gen_tif(rng):
    g = gen_grid(rng, maxn=7, dtypes=["float64", "float32", "int16", "int32", "uint8", "uint16"])
    if g["T"][3] < 0:
        g["T"][3] = -g["T"][3]
    if abs(g["T"][2] * g["T"][3] - g["T"][4] * g["T"][5]) < 0.05:
        g["T"][4:] = [0.0, 0.0]
    # an unrotated unit transform at the origin is what GDAL reports when there is none
    return {"g": g, "crs": rng.choice(["utm", "lonlat", "utm"]), "mem": rng.random() < 0.6,
            "compress": rng.choice(["PACKBITS", "LZW", "DEFLATE", None]),
            "win": [rng.random() for _ in range(4)]}


def check_tif(c):
    crs = {"utm": UTM, "lonlat": LonLatWGS84}[c["crs"]]
    g, a = build(c["g"], crs)
    fn = os.path.join(TMP, "a%d.tif" % os.getpid())
    g.to_geotiff(fn, compress=c["compress"])
    ensure(same(g[:, :, :], a), "writing changed the grid")
    r = read_geotiff(fn, in_memory=c["mem"])
    ensure(tuple(r.size) == a.shape[:2] and r.nbands == a.shape[2], "size %s, bands %d", r.size, r.nbands)
    ensure(all(close(p, q) for p, q in zip(r.transform, g.transform)), "transform %s, written %s", r.transform, g.transform)
    ensure(same(r[:, :, :], a), "values: %s, written %s", r[:, :, :].tolist(), a.tolist())
    ensure(np.dtype(r.values.dtype) == a.dtype, "dtype %s, written %s", r.values.dtype, a.dtype)
    ensure(eqv(float(r.nodata), float(g.nodata)), "nodata %r, written %r", r.nodata, g.nodata)
    w = c["win"]
    i0 = int(w[0] * a.shape[0])
    i1 = i0 + 1 + int(w[1] * (a.shape[0] - i0))
    j0 = int(w[2] * a.shape[1])
    j1 = j0 + 1 + int(w[3] * (a.shape[1] - j0))
    ensure(same(r[i0:i1, j0:j1], a[i0:i1, j0:j1]), "window %s of the file", (i0, i1, j0, j1))
    if crs is LonLatWGS84:
        ensure(isinstance(r.crs, GeographicalCRS) and abs(r.crs.ellipsoid.a - 6378137.0) < 1e-3
               and abs(r.crs.ellipsoid.b - 6356752.314245) < 1e-2, "geographical system read with axes %r %r",
               r.crs.ellipsoid.a, r.crs.ellipsoid.b)
    else:
        ensure("+proj=utm" in r.crs.get_proj4() and "+zone=7" in r.crs.get_proj4(), "crs %s", r.crs.get_proj4())
    if c["g"]["nb"] > 1:
        k = 1 + int(w[0] * c["g"]["nb"])
        s = read_geotiff(fn, ibands=k)
        ensure(same(s[:, :, 0], a[:, :, k - 1]), "ibands=%d", k)
    m = from_geotiffs(fn, fn, in_memory=c["mem"])
    ensure(m.nbands == 2 and same(m[:, :, 0], a[:, :, 0]) and same(m[:, :, 1], a[:, :, 0]) and
           all(close(p, q) for p, q in zip(m.transform, g.transform)), "from_geotiffs of the same file twice")
    fn2 = os.path.join(TMP, "b%d.tif" % os.getpid())
    sp = dict(c["g"])
    sp["T"] = [sp["T"][0] + 3.0] + sp["T"][1:]
    build(sp, crs)[0].to_geotiff(fn2)
    raises(GridError, from_geotiffs, fn, fn2)
    r = m = s = None
    os.remove(fn)
    os.remove(fn2)


CLAUSES = [
    Clause("aai", "an ASCII grid reads back with the same georeferencing and values, missing cells as nodata", gen_aai,
           check_aai, quick=800, thorough=30000),
    Clause("header", "headers are completed consistently and rejected when incomplete", gen_hdr, check_hdr, quick=400, thorough=5000),
    Clause("geotiff", "a GeoTIFF reads back with the same georeferencing, values, type, nodata and ellipsoid, in memory "
           "and from disk", gen_tif, check_tif, quick=500, thorough=20000, weight=2),
]
