"""P25: planar convex hull."""
import numpy as np
from core import *
from vg import *
from karta.vector.convexhull import convexhull
from coordstring import CoordString


def gen(rng):
    n = rng.choice([1, 2, 3, 4, 5, 8, 15, 40])
    mode = rng.choice(["grid", "fine", "line", "circle", "dup"])
    if mode == "line":
        P = [[k, 2 * k] if rng.random() < .9 else [k, 2 * k + 1] for k in (rng.randint(-5, 5) for _ in range(n))]
    elif mode == "circle":
        P = [[5 * math.cos(2 * math.pi * k / n), 5 * math.sin(2 * math.pi * k / n)] for k in range(n)]
        P = [[round(x * 1024) / 1024, round(y * 1024) / 1024] for x, y in P]
        rng.shuffle(P)
    elif mode == "dup":
        P = gen_pts(rng, n, 2, -1, 1, 0)
    else:
        P = gen_pts(rng, n, 2, -6, 6, 0 if mode == "grid" else 5)
    return {"p": [[float(x), float(y)] for x, y in P], "kind": rng.choice(["mp", "line", "raw"]), "rank": rng.choice([2, 2, 3])}


def check(c):
    P = c["p"]
    W = [p + [7.0] for p in P] if c["rank"] == 3 else P
    if c["kind"] == "raw":
        idx = convexhull(CoordString(W))
        ensure(all(0 <= i < len(P) for i in idx), "indices %s", idx)
        H = [tuple(P[i]) for i in idx]
    else:
        g = Line(W) if c["kind"] == "line" and len(P) > 1 else Multipoint([tuple(w) for w in W])
        h = g.convex_hull()
        H = [tuple(v[:2]) for v in verts(h)]
    S = set(map(tuple, P))
    ensure(set(H) <= S, "hull vertex not among the points: %s", H)
    ensure(len(set(H)) == len(H), "a vertex twice: %s", H)
    n = len(H)
    flat = all(orient(P[0], q, r) == 0 for q in P for r in P)
    if len(S) == 1:
        ensure(n == 1, "hull of one point: %s", H)
    elif flat:
        ensure(n == 2 and set(H) == {min(S), max(S)}, "hull of collinear points: %s", H)
    else:
        ensure(n >= 3, "hull of %s: %s", P[:6], H)
        for i in range(n):
            a, b, d = H[i], H[(i + 1) % n], H[(i + 2) % n]
            ensure(orient(a, b, d) > 0, "not strictly convex counter-clockwise at %s", b)
            for q in P:
                ensure(orient(a, b, q) >= 0, "point %s is outside edge %s - %s", q, a, b)


CLAUSES = [Clause("hull", "hull vertices are input points, counter-clockwise, strictly convex, and every input is inside; degenerate inputs give the point or the extreme pair",
                  gen, check, quick=8000, thorough=300000)]
