"""P17: planar segment intersections."""
import numpy as np
from core import *
from vg import *
from karta.vector.intersection import intersection, all_intersections, bboxes_overlap
from coordstring import CoordString


def gen(rng):
    bits = rng.choice([0, 0, 2, 5])
    q = gen_pts(rng, 4, 2, -4, 4, bits)
    if rng.random() < .15:
        q[3] = [q[2][0] + q[1][0] - q[0][0], q[2][1] + q[1][1] - q[0][1]]
    if rng.random() < .1:
        q[2] = list(q[rng.choice([0, 1])])
    if rng.random() < .1:
        q[1] = [q[0][0], q[1][1]]
    if rng.random() < .05:
        q[1] = list(q[0])
    return {"q": q, "shift": rng.choice([0, 0, 1024.0])}


def check(c):
    a, b, u, v = [[t + c["shift"] for t in p] for p in c["q"]]
    r = intersection(a[0], b[0], u[0], v[0], a[1], b[1], u[1], v[1])
    ensure(len(r) == 2, "result %s", r)
    if proper(a, b, u, v):
        x, y = crosspoint(a, b, u, v)
        ensure(not math.isnan(r[0]) and pclose(r, (x, y), 1e-9, 1 + c["shift"]), "crossing at (%s, %s) reported as %s", float(x), float(y), r)
        s = intersection(u[0], v[0], a[0], b[0], u[1], v[1], a[1], b[1])
        ensure(pclose(s, r, 1e-9, 1 + c["shift"]), "not symmetric: %s %s", r, s)
    if not touch(a, b, u, v):
        ensure(math.isnan(r[0]) and math.isnan(r[1]), "disjoint segments intersect at %s", r)
    if not math.isnan(r[0]):
        for s in ((a, b), (u, v)):
            ensure(segdist(r, *s) <= 1e-9 * (10 + c["shift"]), "%s is not on segment %s", r, s)


def gen_all(rng):
    bits = rng.choice([0, 2])
    return {"a": gen_pts(rng, rng.randint(2, 7), 2, -5, 5, bits), "b": gen_pts(rng, rng.randint(2, 7), 2, -5, 5, bits),
            "ra": rng.random() < .5, "rb": rng.random() < .5}


def check_all(c):
    A, B = c["a"], c["b"]
    ga = Polygon(A) if c["ra"] and len(A) > 2 else Line(A)
    gb = Polygon(B) if c["rb"] and len(B) > 2 else Line(B)
    sa, sb = segs(A, ga._vertices.ring), segs(B, gb._vertices.ring)
    want = [crosspoint(s[0], s[1], t[0], t[1]) for s in sa for t in sb if proper(s[0], s[1], t[0], t[1])]
    ntouch = sum(touch(s[0], s[1], t[0], t[1]) for s in sa for t in sb)
    for dup in (True, False):
        mp = ga.intersections(gb, keep_duplicates=dup)
        got = [tuple(p.vertex()) for p in mp]
        for w in want:
            ensure(any(pclose(g, w) for g in got), "crossing at (%s, %s) missing from %s", float(w[0]), float(w[1]), got)
        for g in got:
            ensure(any(segdist(g, *s) < 1e-9 for s in sa) and any(segdist(g, *t) < 1e-9 for t in sb), "%s lies on one geometry only", g)
        if dup:
            ensure(len(want) <= len(got) <= ntouch, "%d points, %d crossings, %d touching pairs", len(got), len(want), ntouch)
        else:
            ensure(len(set(got)) == len(got), "duplicate points")
    return len(want) > 0


def gen_bb(rng):
    def bb():
        x, y = sorted([rng.randint(-3, 3), rng.randint(-3, 3)]), sorted([rng.randint(-3, 3), rng.randint(-3, 3)])
        return [float(x[0]), float(y[0]), float(x[1]), float(y[1])]
    return {"a": bb(), "b": bb()}


def check_bb(c):
    a, b = c["a"], c["b"]
    e = a[0] <= b[2] and b[0] <= a[2] and a[1] <= b[3] and b[1] <= a[3]
    ensure(bool(bboxes_overlap(tuple(a), tuple(b))) == e, "overlap of %s and %s is not %s", a, b, e)
    la, lb = Line([a[:2], a[2:]]), Line([b[:2], b[2:]])
    ensure(bool(la._bbox_overlap(lb)) == e, "geometry bbox overlap of %s and %s is not %s", a, b, e)


CLAUSES = [
    Clause("segment", "crossing segments give their exact common point in either order, disjoint ones none, and any reported point is on both",
           gen, check, quick=16000, thorough=600000),
    Clause("all", "the intersections of two geometries include every crossing (closing edges too) and only common points", gen_all, check_all, quick=5000, thorough=200000),
    Clause("bbox", "bounding boxes overlap iff their closed ranges do", gen_bb, check_bb, quick=4000, thorough=60000),
]
