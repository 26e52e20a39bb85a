"""P18: nearest point on a boundary, distance to a boundary (planar)."""
import numpy as np
from core import *
from vg import *
from karta.vector.vectorgeo import pt_nearest_planar


def gen(rng):
    bits = rng.choice([0, 2, 4])
    q = gen_pts(rng, 3, 2, -6, 6, bits)
    r = rng.random()
    if r < .1:
        q[2] = list(q[1])
    elif r < .25:
        q[2] = [q[1][0], q[2][1]]
    elif r < .4:
        q[2] = [q[2][0], q[1][1]]
    elif r < .5:
        q[2] = [q[1][0] + rng.choice([1e-3, 1e-9, -1e-12]), q[1][1] + rng.choice([0, 1e-3, -1e-9])]
    return {"q": q, "s": rng.choice([0., 0., 4096.])}


def check(c):
    p, a, b = [[v + c["s"] for v in t] for t in c["q"]]
    (x, y), d = pt_nearest_planar(p[0], p[1], a[0], a[1], b[0], b[1])
    e = segdist(p, a, b)
    t = 1e-8 * (10 + c["s"])
    ensure(abs(d - e) <= t, "distance %r, expected %r", d, e)
    ensure(abs(math.hypot(x - p[0], y - p[1]) - e) <= t, "the point (%r, %r) is at distance %r, the nearest at %r", x, y, math.hypot(x - p[0], y - p[1]), e)
    ensure(segdist((x, y), a, b) <= t, "the point (%r, %r) is off the segment", x, y)


def gen_line(rng):
    n = rng.randint(2, 8)
    return {"v": gen_pts(rng, n, 2, -6, 6, rng.choice([0, 3])), "ring": rng.random() < .5, "p": gen_pts(rng, 1, 2, -9, 9, 3)[0], "rank": rng.choice([2, 2, 3]),
            "d": rng.choice([0., .5, 1., 2., 5., 30.])}


def check_line(c):
    V, p = c["v"], c["p"]
    W = [q + [float(i)] for i, q in enumerate(V)] if c["rank"] == 3 else V
    g = Polygon(W) if c["ring"] and len(V) > 2 else Line(W)
    S = segs(V, g._vertices.ring)
    e = min(segdist(p, *s) for s in S)
    P = Point(tuple(p))
    ensure(close(g.shortest_distance_to(P), e, 1e-9), "shortest distance %r, expected %r", g.shortest_distance_to(P), e)
    q = g.nearest_on_boundary(P)
    ensure(close(math.hypot(q.x - p[0], q.y - p[1]), e, 1e-9), "nearest point %s is at %r, expected %r", q.vertex(), math.hypot(q.x - p[0], q.y - p[1]), e)
    ensure(min(segdist((q.x, q.y), *s) for s in S) < 1e-9, "nearest point %s is off the boundary", q.vertex())
    for d in (c["d"], e + 1e-6, e - 1e-6):
        if abs(d - e) > 1e-9 and d >= 0:
            ensure(bool(g.within_distance(P, d)) == (e <= d), "within %r is %s at distance %r", d, g.within_distance(P, d), e)
    if c["rank"] == 2:
        i = g.nearest_vertex_to(P)
        ds = [math.hypot(v[0] - p[0], v[1] - p[1]) for v in V]
        ensure(ds[i] <= min(ds) + 1e-9, "vertex %d at %r is not the nearest (%r)", i, ds[i], min(ds))
        for got, w in zip(g.distances_to(P), ds):
            ensure(close(float(got), w), "vertex distance %r, expected %r", got, w)
        for got, w in zip(g.flat_distances_to(P), ds):
            ensure(close(float(got), w), "flat vertex distance %r, expected %r", got, w)


CLAUSES = [
    Clause("segment", "the reported point is on the segment, the distance is its own, and no point of the segment is nearer", gen, check, quick=16000, thorough=600000),
    Clause("boundary", "shortest distance, nearest boundary point, within_distance and vertex distances agree with the minimum over every edge, closing edge included",
           gen_line, check_line, quick=4000, thorough=150000),
]
