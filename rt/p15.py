"""P15: geometry index (R-tree)."""
import numpy as np
from core import *
from vg import *
from karta.vector.rtree import RTree


class Box(object):
    def __init__(self, b):
        self.b = tuple(b)

    def bbox(self):
        return self.b


def gen(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 25, 49, 50, 51, 60, 130, 260])
    mode = rng.choice(["grid", "fine", "same", "line", "cluster"])
    boxes = []
    for _ in range(n):
        if mode == "grid":
            x, y, w, h = rng.randint(-8, 8), rng.randint(-8, 8), rng.randint(0, 3), rng.randint(0, 3)
        elif mode == "fine":
            x, y, w, h = [rng.randint(-400, 400) / 32. for _ in range(2)] + [rng.randint(0, 60) / 32. for _ in range(2)]
        elif mode == "same":
            x, y, w, h = 1, 2, 1, 1
        elif mode == "line":
            x, y, w, h = rng.randint(-30, 30), 0, rng.randint(0, 2), 0
        else:
            k = rng.choice([1, 1, 8])
            x, y, w, h = 100 * k + rng.randint(-9, 9) / 8., 50 * k, .125, .25
        boxes.append([float(x), float(y), float(x + w), float(y + h)])
    qs = []
    for _ in range(4):
        xs, ys = [], []
        for _ in range(2):
            if boxes and rng.random() < .6:
                b = rng.choice(boxes)
                xs.append(b[rng.choice([0, 2])] + rng.choice([0, 0, .03125, -.03125, 3]))
                ys.append(b[rng.choice([1, 3])] + rng.choice([0, 0, .03125, -.03125, 3]))
            else:
                xs.append(rng.choice([-1000., 1000., rng.randint(-20, 20) / 2.]))
                ys.append(rng.choice([-1000., 1000., rng.randint(-20, 20) / 2.]))
        qs.append([min(xs), min(ys), max(xs), max(ys)])
    return {"boxes": boxes, "cap": rng.choice([5, 6, 8, 50]), "qs": qs, "mr": rng.choice([-1, -1, -1, 0, 1, 2, 5, 1000])}


def check(c):
    B = c["boxes"]
    t = RTree([Box(b) for b in B], maxchildren=c["cap"])
    if B:
        u = (min(b[0] for b in B), min(b[1] for b in B), max(b[2] for b in B), max(b[3] for b in B))
        ensure(tuple(t.bbox) == u, "index bbox %s, expected %s", t.bbox, u)
    for q in c["qs"]:
        r = t.search_within(q)
        ensure(len(set(r)) == len(r), "search_within: an index twice")
        for i, b in enumerate(B):
            strict = q[0] < b[0] and q[1] < b[1] and b[2] < q[2] and b[3] < q[3]
            outside = b[0] < q[0] or b[1] < q[1] or b[2] > q[2] or b[3] > q[3]
            if strict:
                ensure(i in r, "query %s misses item %d %s", q, i, b)
            if outside:
                ensure(i not in r, "query %s returns item %d %s", q, i, b)
        ensure(all(0 <= i < len(B) for i in r), "search_within: unknown index")
        full = r
        r = t.search_overlapping(q)
        e = [i for i, b in enumerate(B) if b[0] <= q[2] and q[0] <= b[2] and b[1] <= q[3] and q[1] <= b[3]]
        ensure(sorted(r) == e, "overlap query %s returns %s, expected %s", q, sorted(r)[:20], e[:20])
        m = c["mr"]
        if m >= 0:
            for f, whole in ((t.search_within, full), (t.search_overlapping, e)):
                r = f(q, max_results=m)
                ensure(len(r) == min(m, len(whole)) and len(set(r)) == len(r) and set(r) <= set(whole),
                       "query %s with at most %d results returns %d of %d", q, m, len(r), len(whole))
        ensure(sorted(t.search_overlapping(q)) == e, "the second search differs")


def gen_ml(rng):
    n = rng.randint(1, 70)
    lines = [gen_pts(rng, rng.randint(2, 4), 2, -16, 16, 2) for _ in range(n)]
    b = gen_pts(rng, 2, 2, -20, 20, 2)
    return {"lines": lines, "q": [min(b[0][0], b[1][0]), min(b[0][1], b[1][1]), max(b[0][0], b[1][0]), max(b[0][1], b[1][1])],
            "kind": rng.choice(["line", "poly"]), "mr": rng.choice([-1, -1, 1, 3])}


def check_ml(c):
    L, q = c["lines"], c["q"]
    if c["kind"] == "poly":
        L = [l + [[l[0][0] + 1, l[0][1] + 2]] for l in L]
        mg = Multipolygon([[l] for l in L], data={"k": list(range(len(L)))})
    else:
        mg = Multiline(L, data={"k": list(range(len(L)))})
    bb = [(min(p[0] for p in l), min(p[1] for p in l), max(p[0] for p in l), max(p[1] for p in l)) for l in L]
    r = mg.touching_bbox(tuple(q), max_results=c["mr"])
    e = [i for i, b in enumerate(bb) if b[0] <= q[2] and q[0] <= b[2] and b[1] <= q[3] and q[1] <= b[3]]
    want = min(len(e), c["mr"]) if c["mr"] >= 0 else len(e)
    ensure(len(r) == want, "touching_bbox: %d members, expected %d", len(r), want)
    ks = r.d["k"] if len(r) else []
    ensure(len(set(ks)) == len(ks) and set(ks) <= set(e), "touching_bbox: members %s, expected among %s", ks, e)
    for j, k in enumerate(ks):
        ensure(verts(r[j]) == [tuple(map(float, p)) for p in L[k]], "touching_bbox: member %d has other vertices", k)
    r = mg.within_bbox(tuple(q))
    ks = r.d["k"] if len(r) else []
    for i, b in enumerate(bb):
        if q[0] < b[0] and q[1] < b[1] and b[2] < q[2] and b[3] < q[3]:
            ensure(i in ks, "within_bbox misses member %d", i)
        if b[0] < q[0] or b[1] < q[1] or b[2] > q[2] or b[3] > q[3]:
            ensure(i not in ks, "within_bbox returns member %d", i)
    for j, k in enumerate(ks):
        ensure(verts(r[j]) == [tuple(map(float, p)) for p in L[k]], "within_bbox: member %d has other vertices", k)


CLAUSES = [
    Clause("index", "overlap queries return exactly the overlapping items, containment queries all strictly inside and none outside, each once, honouring the result limit; index bbox is the union",
           gen, check, quick=5000, thorough=160000, weight=2),
    Clause("multipart", "bounding box subsets of multilines and multipolygons hold exactly the right members with their vertices and data", gen_ml, check_ml, quick=1500, thorough=50000),
]
