"""P31: multipart members, slices, equality, merging."""
import numpy as np
from core import *
from vg import *


def gen(rng):
    kind = rng.choice(["multipoint", "multiline", "multipolygon"])
    n = rng.randint(0, 6) if kind == "multipoint" else rng.randint(1, 4)
    rank = rng.choice([2, 3])
    return {"kind": kind, "rank": rank, "parts": [gen_pts(rng, rng.randint(3, 5), rank, -9, 9, 2) for _ in range(n)], "holes": [rng.random() < .4 for _ in range(n)],
            "data": rng.choice([0, 1, 2]), "props": rng.random() < .5, "from": rng.choice(["coords", "members"]),
            "key": [rng.choice([None, rng.randint(-7, 7)]), rng.choice([None, rng.randint(-7, 7)]), rng.choice([None, None, 1, 2, -1])]}


def hole(p):
    return [[v * .25 + .125 for v in q] for q in p]


def build(c, tag=0):
    n = len(c["parts"])
    parts = [tuple(p[0]) for p in c["parts"]] if c["kind"] == "multipoint" else c["parts"]
    data = {}
    if c["data"] > 0:
        data["k"] = [10 * tag + i for i in range(n)]
    if c["data"] > 1:
        data["s"] = ["t%d.%d" % (tag, i) for i in range(n)]
    pr = {"name": "whole"} if c["props"] else {}
    rows = [{k: v[i] for k, v in data.items()} for i in range(n)]
    if c["kind"] == "multipoint":
        if c["from"] == "members" and n:
            g = Multipoint([Point(p, properties=r) for p, r in zip(parts, rows)], properties=dict(pr))
        else:
            g = Multipoint(parts, data=data or None, properties=dict(pr))
        exp = [[tuple(map(float, p))] for p in parts]
    elif c["kind"] == "multiline":
        if c["from"] == "members" and n:
            g = Multiline([Line(p, properties=r) for p, r in zip(parts, rows)], properties=dict(pr))
        else:
            g = Multiline(parts, data=data or None, properties=dict(pr))
        exp = [[tuple(map(float, q)) for q in p] for p in parts]
    else:
        rings = [[p] + ([hole(p)] if h else []) for p, h in zip(parts, c["holes"])]
        if c["from"] == "members" and n and data:
            g = Multipolygon([Polygon(r[0], subs=[Polygon(s) for s in r[1:]], properties=row) for r, row in zip(rings, rows)], properties=dict(pr))
        else:
            g = Multipolygon(rings, data=data or None, properties=dict(pr))
        exp = [[[tuple(map(float, q)) for q in p] for p in r] for r in rings]
    return g, exp, rows, pr


def members(g, kind):
    if kind == "multipolygon":
        return [[[tuple(map(float, q)) for q in r.vertices()] for r in [m] + list(m.subs)] for m in g]
    if kind == "multipoint":
        return [[tuple(map(float, m.vertex()))] for m in g]
    return [[tuple(map(float, q)) for q in m.vertices()] for m in g]


def agree(g, exp, rows, pr, kind, what):
    ensure(len(g) == len(exp), "%s: %d members, expected %d", what, len(g), len(exp))
    ensure(len(g.data) == len(exp), "%s: %d data rows for %d members", what, len(g.data), len(exp))
    got = members(g, kind)
    ensure(got == exp, "%s: members %s, expected %s", what, got, exp)
    ensure(g.properties == pr, "%s: properties %s, expected %s", what, g.properties, pr)
    for i, r in enumerate(rows):
        ensure(g.d[i] == r, "%s: row %d is %s, expected %s", what, i, g.d[i], r)
        for m in (g[i], g[i - len(rows)]):
            ensure(m.properties == dict(r, **pr), "%s: member %d carries %s, expected %s", what, i, m.properties, dict(r, **pr))
            ensure(m.crs is g.crs, "%s: member crs", what)


def check(c):
    g, exp, rows, pr = build(c)
    k = c["kind"]
    agree(g, exp, rows, pr, k, "constructor")
    if exp:
        s = slice(*c["key"])
        if exp[s]:
            sub = g[s]
            ensure(type(sub) is type(g), "slice type")
            agree(sub, exp[s], rows[s], pr, k, "slice %s" % (c["key"],))
        else:
            ensure(len(g[s]) == 0, "an empty slice has %d members", len(g[s]))
    for i in (len(exp), -len(exp) - 1):
        raises(IndexError, lambda: g[i])
    raises(KeyError, lambda: g["zz"])
    h, _, _, _ = build(c)
    ensure(g == h and hash(g) == hash(h), "equal geometries differ")
    if exp and k != "multipoint":
        d = dict(c, parts=[[list(q) for q in p] for p in c["parts"]])
        d["parts"][-1][-1][0] += 1
        g2, _, _, _ = build(d)
        ensure(not (g == g2), "different geometries compare equal")
    if exp:
        ensure(g[0] in g, "a member is not found in the collection")
    ensure(not (g == Point((0., 0.))), "equal to a point")


def gen_merge(rng):
    a = gen(rng)
    its = []
    for t in range(rng.randint(1, 3)):
        b = gen(rng)
        b["kind"] = a["kind"]
        if a["kind"] != "multipoint" and not b["parts"]:
            continue
        if not b["parts"]:
            b["parts"], b["holes"] = [gen_pts(rng, 3, b["rank"], -9, 9, 2)], [False]
        b["holes"] = (b["holes"] + [False] * 9)[:len(b["parts"])]
        b["single"] = rng.random() < .4
        its.append(b)
    return {"its": its, "kind": a["kind"]}


def check_merge(c):
    if not c["its"]:
        raise Skip
    k = c["kind"]
    cls = {"multipoint": Multipoint, "multiline": Multiline, "multipolygon": Multipolygon}[k]
    args, exp, keys, allrows = [], [], None, []
    rank = min(i["rank"] for i in c["its"])
    for t, it in enumerate(c["its"]):
        g, e, rows, pr = build(dict(it, kind=k), t)
        if it["single"]:
            m = g[0]
            args.append(m)
            e, rows = e[:1], [dict(rows[0], **pr)]
        else:
            args.append(g)
        exp += e
        allrows += rows
        f = set(rows[0]) if it["single"] else set(g.data.fields)
        keys = f if keys is None else keys & f
    cut = lambda v: tuple(v[:rank])
    if k == "multipolygon":
        exp = [[[cut(q) for q in r] for r in p] for p in exp]
    else:
        exp = [[cut(q) for q in p] for p in exp]
    r = cls.merge(*args)
    agree(r, exp, [{x: row[x] for x in keys} for row in allrows], {}, k, "merge")
    raises(ValueError, cls.merge)


def gen_seq(rng):
    return {"v": gen_pts(rng, rng.randint(3, 8), rng.choice([2, 3]), -9, 9, 2), "kind": rng.choice(["line", "polygon"]),
            "key": [rng.choice([None, rng.randint(-9, 9)]), rng.choice([None, rng.randint(-9, 9)]), rng.choice([None, None, 1, 2])], "w": gen_pts(rng, 3, 2, -9, 9, 2)}


def check_seq(c):
    V = [tuple(map(float, v)) for v in c["v"]]
    pr = {"p": 1}
    g = Line(c["v"], properties=pr) if c["kind"] == "line" else Polygon(c["v"], properties=pr)
    ensure(len(g) == len(V) and verts(g) == V, "vertices")
    ensure([tuple(map(float, p.vertex())) for p in g] == V, "iteration")
    for i in range(len(V)):
        ensure(tuple(map(float, g[i].vertex())) == V[i] and g[i].properties == pr, "vertex %d", i)
    if c["kind"] == "line":
        ensure(tuple(map(float, g[-1].vertex())) == V[-1], "last vertex")
    s = slice(*c["key"])
    if len(V[s]):
        h = g[s]
        ensure(verts(h) == V[s], "slice %s gives %s, expected %s", c["key"], verts(h), V[s])
        ensure(h.properties == pr and h.crs is g.crs, "slice loses properties or crs")
    S = [[tuple(map(float, v)) for v in x.vertices()] for x in g.segments]
    ensure(S == [list(x) for x in segs(V, c["kind"] == "polygon")], "segments %s", S)
    T = [(tuple(map(float, a)), tuple(map(float, b))) for a, b in g.segment_tuples]
    ensure(sorted(T) == sorted(segs(V, c["kind"] == "polygon")), "segment tuples %s", T)
    x, y = g.coords()
    ensure([float(t) for t in x] == [v[0] for v in V] and [float(t) for t in y] == [v[1] for v in V], "coords")
    h = Line(c["v"], properties=pr) if c["kind"] == "line" else Polygon(c["v"], properties=pr)
    ensure(g == h and hash(g) == hash(h), "equal geometries differ")
    W = [list(v) for v in c["v"]]
    W[-1][1] += 1
    ensure(not (g == (Line(W, properties=pr) if c["kind"] == "line" else Polygon(W, properties=pr))), "different geometries compare equal")
    ensure(not (g == Line(c["v"][:-1], properties=pr)), "different lengths compare equal")
    if c["kind"] == "polygon":
        l = g.to_line()
        ensure(isinstance(l, Line) and verts(l) == V + V[:1] and l.properties == pr, "to_line gives %s", verts(l))
        ensure([tuple(map(float, v)) for v in g.vertices_ring] == V + V[:1], "vertices_ring")
    else:
        p = g.to_polygon()
        ensure(isinstance(p, Polygon) and verts(p) == V and bool(p._vertices.ring), "to_polygon gives %s", verts(p))
        if len(c["v"][0]) == 2:
            n = len(V)
            o = Line(c["w"])
            g.extend(o)
            ensure(verts(g) == V + [tuple(map(float, w)) for w in c["w"]] and len(o) == 3, "extend")
    a = Point(V[0]) + Point(V[1])
    ensure(isinstance(a, Multipoint) and len(a) == 2 and tuple(a[1].vertex()) == V[1], "sum of points")
    b = h + h
    ensure(len(b) == 2 and type(b) is (Multiline if c["kind"] == "line" else Multipolygon), "sum of geometries")


def gen_known(rng):
    return {"n": rng.randint(1, 3)}


def check_known(c):
    P = [Polygon([(i, 0.), (i + 1., 0.), (i, 1.)]) for i in range(c["n"])]
    g = Multipolygon(P)
    ensure(len(g) == c["n"] and len(g.data) == c["n"] and len(list(g)) == c["n"], "%d members, %d data rows, %d iterated", len(g), len(g.data), len(list(g)))


def known_known(c):
    # the listed finding, exactly: members are there, data rows are not
    g = Multipolygon([Polygon([(i, 0.), (i + 1., 0.), (i, 1.)]) for i in range(c["n"])])
    if len(g) == c["n"] and len(g.data) == 0 and len(g._vertices) == c["n"]:
        return "multipolygon-from-polygons-without-properties"
    return None


CLAUSES = [
    Clause("members", "members carry their own vertices, rings, data row and the shared properties; slices follow Python slicing of members and rows; equality and hash agree",
           gen, check, quick=6000, thorough=200000, weight=2),
    Clause("merge", "merging keeps every member of every item in order at the common rank with the shared fields", gen_merge, check_merge, quick=3000, thorough=100000),
    Clause("sequence", "lines and polygons behave as sequences of vertices; segments, conversions and equality follow", gen_seq, check_seq, quick=4000, thorough=100000),
    Clause("bare", "a multipolygon made of polygons without properties has its members", gen_known, check_known, quick=16, thorough=16, known=known_known, weight=.1),
]
