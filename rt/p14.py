"""P14: point indexes (quadtree) and the point subsets built on them."""
import numpy as np
from core import *
from vg import *
from karta.vector.quadtree import QuadTree
from coordstring import CoordString


def gen_points(rng, big=True):
    n = rng.choice([0, 1, 2, 3, 5, 9, 20, 49, 50, 51, 52, 60, 120, 300] if big else [1, 2, 5, 30, 80])
    mode = rng.choice(["grid", "fine", "cluster", "line", "dup", "scale"])
    pts = []
    for _ in range(n):
        if mode == "grid":
            p = [rng.randint(-6, 6), rng.randint(-6, 6)]
        elif mode == "fine":
            p = [rng.uniform(-6, 6), rng.uniform(-6, 6)]
        elif mode == "cluster":
            k = rng.choice([1., 1e-3, 1e-6])
            p = [2 + rng.uniform(-k, k), -3 + rng.uniform(-k, k)]
        elif mode == "line":
            t = rng.randint(-40, 40) / 4.
            p = [t, 1.5] if rng.random() < .9 else [t, 1.5 + rng.randint(-1, 1)]
        elif mode == "dup":
            p = [rng.randint(-1, 1), rng.randint(-1, 1)]
        else:
            p = [rng.uniform(-1, 1) * 1e6, rng.uniform(-1, 1) * 1e-3]
        pts.append([float(p[0]), float(p[1])])
    return pts


def gen_box(rng, pts):
    def coord(k):
        r = rng.random()
        if pts and r < .5:
            return rng.choice(pts)[k]
        if pts and r < .7:
            return rng.choice(pts)[k] + rng.choice([-1e-9, 1e-9, 1e-3, -1e-3, .5, -.5])
        if r < .8:
            return rng.choice([-1e9, 1e9])
        return rng.uniform(-8, 8)
    xs, ys = sorted([coord(0), coord(0)]), sorted([coord(1), coord(1)])
    return [xs[0], ys[0], xs[1], ys[1]]


def gen(rng):
    pts = gen_points(rng)
    return {"pts": pts, "cap": rng.choice([5, 6, 7, 8, 10, 20, 50]), "boxes": [gen_box(rng, pts) for _ in range(4)]}


def expected(pts, b):
    return [i for i, (x, y) in enumerate(pts) if b[0] < x < b[2] and b[1] < y < b[3]]


def check(c):
    pts = c["pts"]
    if not pts:
        raise Skip
    q = QuadTree(CoordString(pts), leaf_capacity=c["cap"])
    ensure(len(q) == len(pts), "index holds %d of %d points", len(q), len(pts))
    for b in c["boxes"]:
        r = q.search_within(*b)
        ensure(sorted(r) == expected(pts, b), "box %s: %s, expected %s", b, sorted(r)[:20], expected(pts, b)[:20])
        r = q.search_within(*b)
        ensure(sorted(r) == expected(pts, b), "box %s: the second search differs", b)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    ensure(q.bbox == (min(xs), min(ys), max(xs), max(ys)), "index bbox %s", q.bbox)


def gen_mp(rng):
    pts = gen_points(rng, False)
    rank = rng.choice([2, 2, 3])
    if rank == 3:
        pts = [p + [float(rng.randint(0, 3))] for p in pts]
    return {"pts": pts, "box": gen_box(rng, pts), "r": rng.choice([0.5, 1.0, 2.5, 7.0, 1e-3]), "c": [rng.choice(pts)[0] + rng.choice([0, .5]), rng.choice(pts)[1]],
            "data": rng.random() < .6, "index": rng.random() < .8, "props": rng.random() < .5, "edit": rng.random() < .3,
            "poly": star(rng, rng.randint(3, 7), rng.uniform(-3, 3), rng.uniform(-3, 3), rng.choice([2., 6.]))}


def mk(c):
    pts = [list(p) for p in c["pts"]]
    n = len(pts)
    data = {"v": list(range(n)), "w": ["s%d" % i for i in range(n)]} if c["data"] else None
    props = {"name": "set"} if c["props"] else None
    mp = Multipoint([tuple(p) for p in pts], build_index=c["index"], data=data, properties=props)
    rows = [{"v": i, "w": "s%d" % i} if c["data"] else {} for i in range(n)]
    if c["edit"]:
        k = n // 2
        v = [p + 1.25 for p in pts[k]]
        mp[k] = tuple(v)
        pts[k] = v
        rows[k] = {x: None for x in rows[k]}
    return mp, pts, rows


def same_subset(s, idx, mp, pts, rows, props):
    ensure(len(s) == len(idx), "%d members, expected %s", len(s), idx)
    ensure(len(s.data) == len(idx), "%d data rows for %d members", len(s.data), len(idx))
    ensure(s.properties == (props or {}), "properties %s", s.properties)
    for k, i in enumerate(idx):
        ensure(tuple(s[k].vertex()) == tuple(pts[i]), "member %d is %s, expected %s", k, s[k].vertex(), pts[i])
        ensure(s.d[k] == rows[i], "member %d carries data %s, expected %s", k, s.d[k], rows[i])


def check_mp(c):
    mp, pts, rows = mk(c)
    props = {"name": "set"} if c["props"] else None
    b = c["box"]
    same_subset(mp.within_bbox(tuple(b)), expected([p[:2] for p in pts], b), mp, pts, rows, props)
    cx, cy = c["c"]
    P = Point((cx, cy))
    idx, skip = [], False
    for i, p in enumerate(pts):
        d = math.hypot(p[0] - cx, p[1] - cy)
        if abs(d - c["r"]) < 1e-9 * max(1, abs(cx), abs(cy), d):
            skip = True
        if d < c["r"]:
            idx.append(i)
    if not skip:
        same_subset(mp.within_radius(P, c["r"]), idx, mp, pts, rows, props)
    w = [winding(p, c["poly"]) for p in pts]
    if None not in w:
        same_subset(mp.within_polygon(Polygon(c["poly"])), [i for i, k in enumerate(w) if k], mp, pts, rows, props)


CLAUSES = [
    Clause("index", "a box search returns exactly the indices of the points strictly inside, each once, for any leaf capacity, duplicate points, any distribution",
           gen, check, quick=6000, thorough=200000, weight=2),
    Clause("subsets", "box, radius and polygon subsets hold exactly the right members in order, with their coordinates, data rows and properties, indexed or not, after edits",
           gen_mp, check_mp, quick=3000, thorough=100000),
]
