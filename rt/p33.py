"""P33: shapefile round trip."""
import os, tempfile, shutil, math
import numpy as np
from core import *
from vg import *
from karta.vector import read_shapefile, write_shapefile
from karta.crs import LonLatWGS84, WebMercator, LonLatNAD83, ProjectedCRS
from p30 import ring

UTM = ProjectedCRS("+proj=utm +zone=10 +datum=WGS84", "utm10")
CRS = {"wgs": LonLatWGS84, "merc": WebMercator, "utm": UTM, "nad": LonLatNAD83}


def _fields(rng):
    n = rng.randint(0, 4)
    names = rng.sample(["a", "value", "longfieldname1", "longfieldname2", "longfieldname3", "B", "x_y", "id"], n)
    return [[nm, rng.choice(["int", "real", "num", "str"])] for nm in names]


def inside(h, s):
    return all(winding(v, s) != 0 for v in h) and not any(proper(a, b, p, q) or touch(a, b, p, q) for a, b in segs(h, True) for p, q in segs(s, True))


def gen(rng):
    k = rng.choice(["point", "line", "polygon", "multipoint", "multiline", "multipolygon"])
    n = rng.randint(1, 4)
    geo = []
    for i in range(n):
        # disjoint rings, so that the driver need not guess which ring holds which
        stars = [star(rng, rng.randint(3, 6), 40 * j - 60, 20 * i - 30, 5., 8) for j in range(rng.randint(1, 3))]
        holes = [[[v[0] * .25 + s[0][0] * 0 + (40 * j - 60) * .75, v[1] * .25 + (20 * i - 30) * .75] for v in s] for j, s in enumerate(stars)]
        geo.append({"s": stars, "h": holes, "hole": [rng.random() < .5 and inside(hh, ss) for ss, hh in zip(stars, holes)]})
    F = _fields(rng)
    vals = []
    gaps = rng.random() < .3            # missing values
    first = {nm: rng.randrange(n) for nm, t in F}
    for i in range(n):
        tt = lambda t: t if t != "num" else rng.choice(["int", "real"])
        vals.append({nm: None if gaps and i != first[nm] and rng.random() < .6 else
                         (rng.choice([0, 1, -5, 2 ** 31 - 1, -2 ** 31, rng.randint(-1000, 1000)]) if t == "int" else
                          rng.choice([.5, -1.25, 1e-6, 1 / 3., 123456.789, rng.uniform(-1e6, 1e6)]) if t == "real" else
                          rng.choice(["abc", "hello world", "x", "0", "q%d" % i])) for nm, t in [(nm, tt(t)) for nm, t in F]})
    return {"kind": k, "geo": geo, "vals": vals, "one": rng.random() < .3, "crs": rng.choice(sorted(CRS)), "over": rng.random() < .3, "ext": rng.random() < .5}


def mk(c, i):
    g, p, crs = c["geo"][i], dict(c["vals"][i]), CRS[c["crs"]]
    k, s = c["kind"], g["s"]
    if k == "point":
        return Point(tuple(s[0][0]), properties=p, crs=crs)
    if k == "line":
        return Line(s[0], properties=p, crs=crs)
    if k == "polygon":
        return Polygon(s[0], subs=[Polygon(g["h"][0], crs=crs)] if g["hole"][0] else [], properties=p, crs=crs)
    if k == "multipoint":
        return Multipoint([tuple(v) for v in s[0]], properties=p, crs=crs)
    if k == "multiline":
        return Multiline(s, properties=p, crs=crs)
    return Multipolygon([[r, h] if f else [r] for r, h, f in zip(s, g["h"], g["hole"])], properties=p, crs=crs)


def same_ring(a, b):
    a, b = [v[:2] for v in ring(a)], [v[:2] for v in ring(b)]
    if len(a) != len(b):
        return False
    return any(u[k:] + u[:k] == a for u in (b, b[::-1]) for k in range(len(b)))


def polys(g):
    if isinstance(g, Polygon):
        return [[g.vertices()] + [q.vertices() for q in g.subs]]
    return [list(p) for p in g.vertices()]


def same(c, g, h):
    k = c["kind"]
    if k == "point":
        ensure(isinstance(h, Point) and tuple(h.vertex()[:2]) == tuple(g.vertex()[:2]), "point %s became %s", g.vertex(), h.vertex())
    elif k in ("line", "multipoint"):
        ensure(type(h) is type(g), "%s became %s", type(g).__name__, type(h).__name__)
        ensure([tuple(v[:2]) for v in h.vertices()] == [tuple(v[:2]) for v in g.vertices()], "vertices changed")
    elif k == "multiline":
        a = [[tuple(v[:2]) for v in m] for m in g.vertices()]
        b = [[tuple(v[:2]) for v in m] for m in h.vertices()] if isinstance(h, Multiline) else [[tuple(v[:2]) for v in h.vertices()]]
        ensure(a == b, "members %s became %s", a, b)
    else:
        A, B = polys(g), polys(h)
        ensure(len(A) == len(B), "%d polygons became %d", len(A), len(B))
        used = set()
        for p in A:
            hit = [i for i, q in enumerate(B) if i not in used and len(p) == len(q) and all(same_ring(r, s) for r, s in zip(p, q))]
            ensure(hit, "polygon with rings %s is not among those read", p)
            used.add(hit[0])


def names(keys):
    """names a dBase table can hold, in the order of the attributes is not promised: by prefix"""
    return [str(k)[:10].upper() for k in keys]


def check(c):
    n = 1 if c["one"] else len(c["geo"])
    gs = [mk(c, i) for i in range(n)]
    keep = [mk(c, i) for i in range(n)]
    d = tempfile.mkdtemp(prefix="kartart")
    try:
        fn = os.path.join(d, "f.shp")
        if c["over"]:
            write_shapefile(fn, *[Point((0., float(i)), properties={"old": 1}) for i in range(7)])
        if c["one"]:
            gs[0].to_shapefile(fn if c["ext"] else fn[:-4])
        else:
            write_shapefile(fn, *gs)
        ensure(all(os.path.exists(fn[:-4] + e) for e in (".shp", ".shx", ".dbf", ".prj")), "files are missing")
        # a copy of the bytes on disk, as another program would see them
        os.mkdir(os.path.join(d, "o"))
        for f in os.listdir(d):
            if f.startswith("f."):
                shutil.copy(os.path.join(d, f), os.path.join(d, "o", f))
        r = read_shapefile(os.path.join(d, "o", "f.shp"))
        r2 = read_shapefile(os.path.join(d, "o", "f"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ensure(len(r) == n and len(r2) == n, "%d of %d geometries", len(r), n)
    for i, (g, q, h) in enumerate(zip(gs, keep, r)):
        ensure(g == q and g.properties == q.properties, "writing changed a geometry")
        same(c, g, h)
        pr = dict(h.properties)
        ensure(pr.pop("id") == i, "the order changed")
        # an attribute no geometry has a value for has no type, and no column
        has = {k: v for k, v in g.properties.items() if any(o.properties[k] is not None for o in gs)}
        ensure(len(pr) == len(has), "%d attributes became %d", len(has), len(pr))
        byname = {}
        for k, v in has.items():
            byname.setdefault(str(k)[:10].upper(), []).append(v)
        for k, vs in byname.items():
            got = [v for kk, v in pr.items() if kk == k or (len(vs) > 1 and kk[:9] == k[:9]) or (k == "ID" and kk[0] == "I")]
            ensure(len(got) == len(vs), "attribute %s: %s", k, pr)
            rest = list(got)
            for v in vs:
                hit = [w for w in rest if (w == v if v is None or isinstance(v, str) else not isinstance(w, str) and w is not None and abs(w - v) <= 1e-14 + 1e-13 * abs(v))]
                ensure(hit, "attribute %s = %r read as %r", k, v, got)
                rest.remove(hit[0])
        lon, lat = -123.5, 45.25
        x0, y0 = g.crs.project(lon, lat) if c["crs"] in ("merc", "utm") else (lon, lat)
        x1, y1 = h.crs.project(lon, lat) if c["crs"] in ("merc", "utm") else (lon, lat)
        ensure(abs(x0 - x1) < 1e-3 and abs(y0 - y1) < 1e-3, "projection changed")
        e, f = g.crs.ellipsoid, h.crs.ellipsoid
        ensure(abs(e.a - f.a) < 1e-6 and abs(e.b - f.b) < 1e-3, "ellipsoid changed")


CLAUSES = [
    Clause("shapefile", "every geometry, in order, with its horizontal vertices, rings, attributes and coordinate system, is on disk when writing returns and is read back; the geometry written is untouched",
           gen, check, quick=1200, thorough=40000),
]
