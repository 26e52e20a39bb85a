"""P30: GeoJSON and geo-interface round trips."""
import io, os, json, tempfile, shutil
import numpy as np
from core import *
from vg import *
from karta.vector.read import read_geojson, from_shape
from karta.crs import LonLatWGS84, Cartesian, WebMercator, LonLatNAD83


def gen(rng):
    return {"kind": rng.choice(["point", "line", "polygon", "multipoint", "multiline", "multipolygon"]), "rank": rng.choice([2, 2, 3]),
            "parts": [gen_pts(rng, rng.randint(3, 5), 3, -60, 60, rng.choice([0, 5])) for _ in range(rng.randint(1, 3))],
            "props": rng.choice([{}, {"name": "x", "n": 3}, {"a": 1.5, "b": None, "c": True}]), "data": rng.random() < .5,
            "force": rng.random() < .5, "via": rng.choice(["str", "file", "obj"]), "wgs": rng.random() < .6}


def build(c, crs):
    rank = c["rank"]
    if crs != LonLatWGS84 and c["force"] and c["kind"] in ("point", "multiline", "multipolygon"):
        rank = 2        # reprojecting these keeps only the horizontal coordinates
    parts = [[q[:rank] for q in p] for p in c["parts"]]
    k, pr = c["kind"], dict(c["props"])
    n = len(parts[0]) if k == "multipoint" else len(parts)
    data = {"k": [i * 2 for i in range(n)], "s": ["m%d" % i for i in range(n)]} if c["data"] else None
    if k == "point":
        return Point(tuple(parts[0][0]), properties=pr, crs=crs), parts
    if k == "line":
        return Line(parts[0], properties=pr, crs=crs), parts
    if k == "polygon":
        return Polygon(parts[0], subs=[Polygon(p, crs=crs) for p in parts[1:]], properties=pr, crs=crs), parts
    if k == "multipoint":
        return Multipoint([tuple(p) for p in parts[0]], data=data, properties=pr, crs=crs), parts
    if k == "multiline":
        return Multiline(parts, data=data, properties=pr, crs=crs), parts
    return Multipolygon([[p, [[v * .5 for v in q] for q in p]] for p in parts], data=data, properties=pr, crs=crs), parts


def ring(V):
    V = [tuple(float(t) for t in v) for v in V]
    if len(V) > 1 and V[0] == V[-1]:
        V = V[:-1]
    return V


def same_geom(g, h, tol, ringy=ring):
    ensure(type(g) is type(h), "a %s became a %s", type(g).__name__, type(h).__name__)
    def cv(a, b, what):
        ensure(len(a) == len(b), "%s: %d vertices became %d", what, len(a), len(b))
        if what.endswith("ring") and len(a):
            # writers may turn a ring over to the orientation the format asks for
            def same(u):
                return all(len(p) == len(q) and pclose(q, p, tol) for p, q in zip(a, u))
            r = list(b)[::-1]
            ensure(any(same(u[k:] + u[:k]) for u in (list(b), r) for k in range(len(b))), "%s: %s became %s", what, a, b)
            return
        for p, q in zip(a, b):
            ensure(len(p) == len(q) and pclose(q, p, tol), "%s: %s became %s", what, p, q)
    if isinstance(g, Point):
        cv([g.vertex()], [h.vertex()], "point")
    elif isinstance(g, Polygon):
        cv(ringy(g.vertices()), ringy(h.vertices()), "outer ring")
        ensure(len(g.subs) == len(h.subs), "%d sub-polygons became %d", len(g.subs), len(h.subs))
        for a, b in zip(g.subs, h.subs):
            cv(ringy(a.vertices()), ringy(b.vertices()), "sub-polygon ring")
    elif isinstance(g, Multipolygon):
        ensure(len(g) == len(h), "%d members became %d", len(g), len(h))
        for a, b in zip(g.vertices(), h.vertices()):
            ensure(len(a) == len(b), "%d rings became %d", len(a), len(b))
            for r, s in zip(a, b):
                cv(ringy(r), ringy(s), "ring")
    elif isinstance(g, Multiline):
        ensure(len(g) == len(h), "%d members became %d", len(g), len(h))
        for a, b in zip(g.vertices(), h.vertices()):
            cv(list(a), list(b), "member")
    else:
        cv(verts(g), verts(h), "vertices")


def check(c):
    crs = LonLatWGS84 if c["wgs"] else LonLatNAD83
    g, parts = build(c, crs)
    keep, _ = build(c, crs)
    force = c["force"]
    if c["via"] == "str":
        s = g.as_geojson(force_wgs84=force)
    elif c["via"] == "obj":
        f = io.StringIO()
        g.to_geojson(f, force_wgs84=force)
        s = f.getvalue()
    else:
        d = tempfile.mkdtemp(prefix="kartart")
        try:
            fn = os.path.join(d, "a.geojson")
            g.to_geojson(fn, force_wgs84=force)
            s = open(fn).read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ensure(g == keep, "writing changed the geometry")
    ensure(g.properties == c["props"], "writing changed the properties: %s", g.properties)
    doc = json.loads(s)
    ensure(doc["type"] == "Feature", "document is a %s", doc["type"])
    geo = doc["geometry"]
    rings = geo["coordinates"] if geo["type"] == "Polygon" else sum(geo["coordinates"], []) if geo["type"] == "MultiPolygon" else []
    ensure(all(r[0] == r[-1] for r in rings), "a ring is not closed")
    if force:
        ensure("CRS84" in json.dumps(doc.get("crs", doc["geometry"].get("crs", ""))), "the output is not labelled WGS84")
    r = read_geojson(s, crs=crs)
    ensure(isinstance(r, list) and len(r) == 1, "%d features", len(r))
    h = r[0]
    same_geom(g, h, 1e-5 if not c["wgs"] and force else 1e-12)
    ensure(h.crs == crs, "crs lost")
    n = len(parts[0]) if c["kind"] == "multipoint" else len(parts)
    if c["kind"].startswith("multi"):
        if c["data"]:
            ensure(h.data.fields == {"k", "s"}, "data fields %s", h.data.fields)
            ensure(list(h.d["k"]) == [i * 2 for i in range(n)] and list(h.d["s"]) == ["m%d" % i for i in range(n)], "data changed")
        if c["kind"] == "multipoint" or True:
            p = {k: v for k, v in c["props"].items() if not (isinstance(v, list) and len(v) == n)}
            ensure(all(h.properties.get(k, "?") == v for k, v in p.items()), "properties %s became %s", c["props"], h.properties)
    else:
        ensure(h.properties == c["props"], "properties %s became %s", c["props"], h.properties)


def check_gi(c):
    g, parts = build(c, LonLatWGS84)
    d = g.__geo_interface__
    ensure(d["type"] == "Feature" and d["properties"]["_karta_proj4"] == LonLatWGS84.get_proj4(), "feature or crs")
    ensure(g.properties == c["props"], "reading the interface changed the properties")
    ensure({k: v for k, v in d["properties"].items() if k != "_karta_proj4"} == c["props"], "properties %s", d["properties"])
    if "bbox" in d["geometry"]:
        ensure(tuple(d["geometry"]["bbox"]) == tuple(g.bbox()), "bbox")
    h = from_shape(g)
    same_geom(g, h, 1e-12)


def gen_coll(rng):
    return {"fs": [{"x": dy(rng, -60, 60), "y": dy(rng, -60, 60), "p": {"i": i}} for i in range(rng.randint(0, 5))], "kind": rng.choice(["fc", "gc"])}


def check_coll(c):
    fs = c["fs"]
    if c["kind"] == "fc":
        doc = {"type": "FeatureCollection", "features": [{"type": "Feature", "geometry": {"type": "Point", "coordinates": [f["x"], f["y"]]}, "properties": f["p"]} for f in fs]}
    else:
        doc = {"type": "GeometryCollection", "geometries": [{"type": "Point", "coordinates": [f["x"], f["y"]]} for f in fs]}
    r = read_geojson(json.dumps(doc))
    ensure(len(r) == len(fs), "%d of %d features", len(r), len(fs))
    for h, f in zip(r, fs):
        ensure(isinstance(h, Point) and tuple(h.vertex()) == (f["x"], f["y"]), "feature %s", h)
        if c["kind"] == "fc":
            ensure(h.properties == f["p"], "properties %s", h.properties)


CLAUSES = [
    Clause("geojson", "writing and reading GeoJSON gives back type, every vertex and ring, properties, member data; the geometry written is untouched",
           gen, check, quick=4000, thorough=100000, weight=2),
    Clause("interface", "the geo interface describes the geometry and reading it gives the same vertices", gen, check_gi, quick=3000, thorough=60000),
    Clause("collections", "collections are read completely and in order", gen_coll, check_coll, quick=600, thorough=10000),
]
