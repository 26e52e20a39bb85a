"""P19: planar measures."""
import numpy as np
from core import *
from vg import *
from karta.vector.vectorgeo import length as vlength, bbox as vbbox


def gen(rng):
    n = rng.randint(1, 9)
    rank = rng.choice([2, 2, 3])
    mode = rng.choice(["any", "star"])
    if mode == "star" and n > 2:
        V = star(rng, n, dy(rng, -9, 9), dy(rng, -9, 9), rng.choice([1., 8.]))
        if rng.random() < .5:
            V = V[::-1]
        k = rng.randrange(n)
        V = V[k:] + V[:k]
        if rank == 3:
            V = [v + [dy(rng)] for v in V]
    else:
        V = gen_pts(rng, n, rank, -9, 9, 2)
    subs = []
    if rng.random() < .4:
        subs = [star(rng, rng.randint(3, 5), dy(rng, -2, 2), dy(rng, -2, 2), .5) for _ in range(rng.randint(1, 2))]
        if rank == 3:
            subs = [[v + [0.0] for v in s] for s in subs]
    nest = [[[[v[0] * .25, v[1] * .25] + v[2:] for v in s] for _ in range(rng.randint(0, 2))] for s in subs]
    return {"v": V, "subs": subs, "nest": nest, "off": rng.choice([0., 0., 1000.])}


def area2(R):
    R = [fr(p) for p in R]
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(R, R[1:] + R[:1]))


def check(c):
    V = [[v[0] + c["off"], v[1] + c["off"]] + v[2:] for v in c["v"]]
    xs, ys = [v[0] for v in V], [v[1] for v in V]
    bb = (min(xs), min(ys), max(xs), max(ys))
    D = lambda S: sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in S)
    L = Line(V)
    mp = Multipoint([tuple(v) for v in V])
    for g in (L, mp):
        ensure(tuple(g.bbox()) == bb, "bbox %s, expected %s", g.bbox(), bb)
        ensure(tuple(g.extent()) == (bb[0], bb[2], bb[1], bb[3]), "extent %s", g.extent())
    if len(V) > 1:
        ensure(close(L.length, D(segs(V, False)), 1e-12), "length %r, expected %r", L.length, D(segs(V, False)))
        dd = lambda a, b: math.sqrt(sum((p - q)**2 for p, q in zip(a, b)))
        cl, acc = L.cumulength(), 0.0
        ensure(len(cl) == len(V), "cumulative length has %d entries", len(cl))
        for i, got in enumerate(cl):
            if i:
                acc += dd(V[i - 1], V[i])
            ensure(close(got, acc, 1e-11), "cumulative length %d is %r, expected %r", i, got, acc)
        ensure(close(L.displacement(), dd(V[0], V[-1]), 1e-11), "displacement %r", L.displacement())
    ML = Multiline([V, [[v[0] + 50, v[1] - 3] + v[2:] for v in V]])
    ensure(tuple(ML.bbox()) == (bb[0], bb[1] - 3, bb[2] + 50, bb[3]), "multiline bbox %s", ML.bbox())
    if len(V) < 3:
        return
    nest = c.get("nest") or [[] for _ in c["subs"]]
    P = Polygon(V, subs=[Polygon(s, subs=[Polygon(t) for t in ts]) for s, ts in zip(c["subs"], nest)])
    ensure(tuple(P.bbox()) == bb, "polygon bbox %s, expected %s", P.bbox(), bb)
    per = D(segs(V, True)) + sum(D(segs(s, True)) for s in c["subs"] + [t for ts in nest for t in ts])
    ensure(close(P.perimeter, per, 1e-11), "perimeter %r, expected %r", P.perimeter, per)
    A2 = area2(V)
    e = abs(A2) / 2 - sum(abs(area2(s)) / 2 - sum(abs(area2(t)) / 2 for t in ts) for s, ts in zip(c["subs"], nest))
    ensure(abs(P.area - float(e)) <= 1e-9 * (1 + abs(float(e)) + c["off"]), "area %r, expected %r", P.area, float(e))
    if A2 != 0:
        ensure(bool(P.isclockwise()) == (A2 < 0), "isclockwise is %s, signed area %s", P.isclockwise(), float(A2) / 2)
    if abs(A2) > 1:
        R = [fr(p) for p in V]
        z = list(zip(R, R[1:] + R[:1]))
        cx = sum((p[0] + q[0]) * (p[0] * q[1] - q[0] * p[1]) for p, q in z) / (3 * A2)
        cy = sum((p[1] + q[1]) * (p[0] * q[1] - q[0] * p[1]) for p, q in z) / (3 * A2)
        m = P.centroid
        t = 1e-8 * (1 + abs(float(cx)) + abs(float(cy)) + c["off"]**3 * 1e-6)
        ensure(abs(m.x - float(cx)) < t and abs(m.y - float(cy)) < t, "centroid (%r, %r), expected (%r, %r)", m.x, m.y, float(cx), float(cy))


CLAUSES = [Clause("measures", "length, cumulative length, perimeter, area, centroid, orientation, bbox and extent equal their definitions over every edge, with sub-polygons, any orientation and first vertex",
                  gen, check, quick=8000, thorough=300000)]
