"""P27: remembered results follow the geometry (histories of edits and queries)."""
import numpy as np
from core import *
from vg import *
from karta.crs import LonLatWGS84, WebMercator, NSIDCNorth


def gen(rng):
    ops = []
    for _ in range(rng.randint(3, 10)):
        ops.append([rng.choice(["extend", "setitem", "setpoint", "bbox", "extent", "length", "box", "hull", "kwbbox"]), rng.randint(0, 10**6)])
    return {"kind": rng.choice(["line", "mp", "poly"]), "v": gen_pts(rng, rng.randint(3, 6), 2, -8, 8, 2), "ops": ops, "index": rng.random() < .7}


def check(c):
    import random
    V = [list(v) for v in c["v"]]
    mk = lambda W: Line(W) if c["kind"] == "line" else (Polygon(W) if c["kind"] == "poly" else Multipoint([tuple(w) for w in W], data={"k": list(range(len(W)))}, build_index=c.get("index", True)))
    g = mk(V)
    other = mk(gen_pts(random.Random(5), 4, 2, -2, 2, 1))
    ob = tuple(other.bbox())
    for o, s in c["ops"]:
        r = random.Random(s)
        if o == "extend" and c["kind"] == "line":
            W = gen_pts(r, r.randint(1, 3), 2, -20, 20, 2)
            ret = g.extend(Line(W))
            V += W
            ensure(ret is g, "extend returns another line")
        elif o == "setitem" and c["kind"] == "mp":
            k = r.randrange(len(V))
            w = gen_pts(r, 1, 2, -20, 20, 2)[0]
            g[k] = tuple(w)
            V[k] = w
        elif o == "setpoint" and c["kind"] == "mp":
            k = r.randrange(len(V))
            w = gen_pts(r, 1, 2, -20, 20, 2)[0]
            g[k] = Point(tuple(w), properties={"k": -1})
            V[k] = w
        xs, ys = [v[0] for v in V], [v[1] for v in V]
        bb = (min(xs), min(ys), max(xs), max(ys))
        if o == "bbox":
            ensure(tuple(g.bbox()) == bb, "bbox %s, expected %s", g.bbox(), bb)
        elif o == "kwbbox":
            ensure(tuple(g.bbox(crs=g.crs)) == bb, "bbox in the own crs %s, expected %s", g.bbox(crs=g.crs), bb)
        elif o == "extent":
            ensure(tuple(g.extent()) == (bb[0], bb[2], bb[1], bb[3]), "extent %s", g.extent())
        elif o == "length" and c["kind"] == "line":
            e = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in segs(V, False))
            ensure(close(g.length, e, 1e-11), "length %r, expected %r", g.length, e)
        elif o == "box" and c["kind"] == "mp":
            q = (-5.1, -5.1, 5.1, 5.1)
            e = [tuple(v) for v in V if q[0] < v[0] < q[2] and q[1] < v[1] < q[3]]
            got = [tuple(p.vertex()) for p in g.within_bbox(q)]
            ensure(got == e, "within_bbox gives %s, expected %s", got, e)
        elif o == "hull" and c["kind"] != "poly":
            h = [tuple(v) for v in verts(g.convex_hull())]
            ensure(set(h) <= set(map(tuple, V)), "hull of former vertices")
        ensure(tuple(other.bbox()) == ob, "another geometry changed")
    ensure(verts(g) == [tuple(map(float, v)) for v in V], "vertices")


CRS = {"lonlat": LonLatWGS84, "merc": WebMercator, "np": NSIDCNorth, "none": None}


def gen_crs(rng):
    ops = [[rng.choice(["bbox", "extent", "get_bbox", "extend", "set"]), rng.choice(sorted(CRS)), rng.random() < .5, rng.randint(0, 10**6)]
           for _ in range(rng.randint(2, 8))]
    return {"kind": rng.choice(["line", "mp", "poly"]), "own": rng.choice(["lonlat", "merc"]), "v": gen_pts(rng, rng.randint(3, 5), 2, 10, 70, 2), "ops": ops, "index": rng.random() < .7}


def check_crs(c):
    """the answer of a geometry with a past is the one of a new geometry with the same vertices"""
    import random
    own = CRS[c["own"]]
    V = [tuple(v) for v in c["v"]]
    K = {"line": Line, "mp": lambda V, crs: Multipoint(V, crs=crs, build_index=c.get("index", True)), "poly": Polygon}[c["kind"]]
    g = K(V, crs=own)
    for o, name, kw, s in c["ops"]:
        crs = CRS[name]
        if o == "extend":
            if c["kind"] == "line":
                W = [tuple(w) for w in gen_pts(random.Random(s), 2, 2, 10, 70, 2)]
                g.extend(Line(W, crs=own))
                V += W
            continue
        if o == "set":
            if c["kind"] == "mp":
                k = s % len(V)
                V[k] = tuple(gen_pts(random.Random(s), 1, 2, 10, 70, 2)[0])
                g[k] = V[k]
            continue
        fresh = K(V, crs=own)
        if o not in dir(g):
            continue
        ask = lambda G: tuple(getattr(G, o)(crs=crs) if kw else (getattr(G, o)(crs) if crs is not None else getattr(G, o)()))
        got, want = ask(g), ask(fresh)
        ensure(got == want, "%s in %s: %s, a new geometry with these vertices answers %s", o, name, got, want)
        xy = np.array([tuple(map(float, v[:2])) for v in V])
        t = crs or own
        x, y = (xy[:, 0], xy[:, 1]) if t is own else [np.array(q, dtype=float) for q in own.transform(t, xy[:, 0], xy[:, 1])][:2]
        b = got if "bbox" in o else (got[0], got[2], got[1], got[3])
        if t is not LonLatWGS84:
            ensure(np.allclose(b, [x.min(), y.min(), x.max(), y.max()], 1e-7, 1e-6), "%s in %s: %s for vertices %s %s", o, name, got, x, y)


CLAUSES = [
    Clause("crs", "after any sequence of edits and queries, bounding box and extent are those of the coordinate system asked for", gen_crs, check_crs,
           quick=600, thorough=30000),
    Clause("history", "after any sequence of edits and queries, bounding box, extent, length and spatial index answer for the current vertices",
                  gen, check, quick=8000, thorough=300000)]
