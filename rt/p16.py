"""P16: planar point-in-polygon."""
import numpy as np
from core import *
from vg import *
from karta.vector.contains import contains
from karta.vector.intersection import count_crossings
from coordstring import CoordString


def gen(rng):
    mode = rng.choice(["star", "star", "any", "grid", "axis"])
    n = rng.randint(3, 9)
    if mode == "star":
        P = star(rng, n, rng.randint(-3, 3), rng.randint(-3, 3), rng.choice([1., 4., 8.]))
        if rng.random() < .5:
            P = P[::-1]
    elif mode == "axis":
        x0, y0 = rng.randint(-4, 4), rng.randint(-4, 4)
        P = [[0, 0], [4, 0], [4, 2], [2, 2], [2, 4], [4, 4], [4, 6], [0, 6]]
        P = [[x0 + a * .5, y0 + b * .5] for a, b in P]
    else:
        P = gen_pts(rng, n, 2, -3, 3, 0 if mode == "grid" else 2)
    k = rng.randrange(len(P))
    P = P[k:] + P[:k]
    pts = []
    for _ in range(6):
        r = rng.random()
        if r < .3:
            p = rng.choice(P)
            pts.append([rng.choice(P)[0], p[1]])
        elif r < .5:
            a = rng.choice(P)
            pts.append([a[0] + rng.choice([-1, 1, .25]), a[1]])
        else:
            pts.append([dy(rng, -5, 5, 3), dy(rng, -5, 5, 3)])
    return {"P": P, "pts": pts, "rank": rng.choice([2, 2, 3]), "mode": mode}


def check(c):
    P = c["P"]
    V = [p + [1.0] for p in P] if c["rank"] == 3 else P
    poly = Polygon(V)
    judged = 0
    simple = c["mode"] in ("star", "axis") or is_simple(P, True)
    for p in c["pts"]:
        w = winding(p, P)
        if w is None:
            continue
        judged += 1
        r = poly.contains(Point(tuple(p)))
        ensure(bool(r) == (w != 0), "point %s: winding number %d but contains is %s", p, w, r)
        ensure(bool(contains(p[0], p[1], poly._vertices)) == (w != 0), "point %s: contains kernel differs", p)
    return judged > 0


def gen_subs(rng):
    cx, cy = dy(rng, -3, 3), dy(rng, -3, 3)
    subs = [star(rng, rng.randint(3, 6), cx + dy(rng, -3, 3), cy + dy(rng, -3, 3), rng.choice([1., 2.])) for _ in range(rng.randint(0, 3))]
    nest = [[[[v[0] * .5 + cx * .5, v[1] * .5 + cy * .5] for v in s] for _ in range(rng.choice([0, 0, 1, 2]))] for s in subs]
    return {"P": star(rng, rng.randint(3, 9), cx, cy, 8.), "subs": subs, "nest": nest, "pts": [[dy(rng, -9, 9, 3), dy(rng, -9, 9, 3)] for _ in range(8)],
            "rank": rng.choice([2, 3])}


def check_subs(c):
    up = (lambda Q: [q + [2.0] for q in Q]) if c["rank"] == 3 else (lambda Q: Q)
    nest = c.get("nest") or [[] for _ in c["subs"]]
    poly = Polygon(up(c["P"]), subs=[Polygon(up(s), subs=[Polygon(up(t)) for t in ts]) for s, ts in zip(c["subs"], nest)])
    line = Multipoint([tuple(p) for p in c["pts"]])
    anyin, ok = False, True
    for p in c["pts"]:
        ws = [winding(p, R) for R in [c["P"]] + c["subs"]]
        wn = [[winding(p, R) for R in ts] for ts in nest]
        if None in ws or any(None in w for w in wn):
            ok = False
            continue
        # a sub-polygon with sub-polygons of its own is what it contains itself
        e = ws[0] != 0 and not any(w and not any(n) for w, n in zip(ws[1:], wn))
        anyin = anyin or e
        ensure(bool(poly.contains(Point(tuple(p)))) == e, "point %s: contains is not %s", p, e)
    if ok:
        ensure(bool(line.any_within_poly(poly)) == anyin, "any_within_poly is not %s", anyin)
    # the outcome does not depend on orientation or first vertex
    rev = Polygon(up(c["P"][::-1]), subs=[Polygon(up(s[1:] + s[:1]), subs=[Polygon(up(t[::-1])) for t in ts]) for s, ts in zip(c["subs"], nest)])
    for p in c["pts"]:
        if None in [winding(p, R) for R in [c["P"]] + c["subs"] + [t for ts in nest for t in ts]]:
            continue
        ensure(bool(rev.contains(Point(tuple(p)))) == bool(poly.contains(Point(tuple(p)))), "orientation changes the answer for %s", p)


def gen_cross(rng):
    c = gen(rng)
    c["P"] = star(rng, rng.randint(3, 8), 0, 0, 4., 5)
    return c


def check_cross(c):
    """the crossing count from a point is odd exactly inside, for points whose x is not that of a vertex"""
    cs = CoordString(c["P"], ring=True)
    xs = set(p[0] for p in c["P"])
    n = 0
    for p in c["pts"]:
        w = winding(p, c["P"])
        if w is None or p[0] in xs:
            continue
        # float evaluation of the edge height must be clear of the point
        if any(abs(orient(a, b, p)) < 1e-9 for a, b in segs(c["P"], True)):
            continue
        n += 1
        k = count_crossings(p[0], p[1], cs)
        ensure(k % 2 == (1 if w else 0), "point %s: %d crossings, winding %d", p, k, w)
    return n > 0


CLAUSES = [
    Clause("winding", "off the boundary, a point is contained iff its winding number is not zero, for any ring (also self-crossing, any orientation and first vertex)",
           gen, check, quick=8000, thorough=300000),
    Clause("holes", "sub-polygons are excluded; orientation and first vertex do not matter; any_within_poly agrees", gen_subs, check_subs, quick=2500, thorough=80000),
    Clause("crossings", "vertical ray crossing parity agrees with containment", gen_cross, check_cross, quick=4000, thorough=100000),
]
