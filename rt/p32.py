"""P32: whether geometries intersect (planar sweep), touching and contained members."""
import numpy as np
from core import *
from vg import *
from karta.vector.intersection import intersects
from coordstring import CoordString


def gen(rng):
    def one():
        k = rng.choice(["line", "line", "poly"])
        cx, cy = rng.uniform(-5, 5), rng.uniform(-5, 5)
        if k == "poly":
            P = star(rng, rng.randint(3, 7), round(cx), round(cy), rng.choice([2., 5.]), 10)
        else:
            P = None
            for _ in range(60):
                n = rng.randint(2, 6)
                s = rng.choice([2, 6])
                Q = [[round((cx + rng.uniform(-s, s)) * 1024) / 1024, round((cy + rng.uniform(-s, s)) * 1024) / 1024] for _ in range(n)]
                if is_simple(Q, False):
                    P = Q
                    break
            P = P or [[0., 0.], [1., 2.]]
        return {"k": k, "p": P}
    return {"a": one(), "b": one(), "vert": rng.random() < .3}


def mk(o):
    return Polygon(o["p"]) if o["k"] == "poly" else Line(o["p"])


def general(A, B):
    """general position: no vertex of one on the other, all x distinct"""
    sa, sb = segs(A["p"], A["k"] == "poly"), segs(B["p"], B["k"] == "poly")
    xs = [p[0] for p in A["p"] + B["p"]]
    if len(set(xs)) != len(xs):
        return False
    for p in A["p"]:
        if any(on_segment(p, *s) for s in sb):
            return False
    for p in B["p"]:
        if any(on_segment(p, *s) for s in sa):
            return False
    return True


def crossing(A, B):
    return any(proper(s[0], s[1], t[0], t[1]) for s in segs(A["p"], A["k"] == "poly") for t in segs(B["p"], B["k"] == "poly"))


def check(c):
    A, B = c["a"], c["b"]
    if not general(A, B):
        raise Skip
    e = crossing(A, B)
    ga, gb = mk(A), mk(B)
    ensure(bool(ga.intersects(gb)) == e, "intersects is not %s", e)
    ensure(bool(gb.intersects(ga)) == e, "intersects is not %s with the arguments exchanged", e)
    ensure(bool(intersects(ga._vertices, gb._vertices)) == e, "the sweep is not %s", e)


def gen_v(rng):
    """axis-parallel and vertical edges, proper crossings only"""
    def rect():
        x, y = rng.randint(-6, 6), rng.randint(-6, 6)
        return {"k": "poly", "p": [[float(a), float(b)] for a, b in [(x, y), (x + rng.randint(1, 5) * 2, y)]]}
    x0, y0, w0, h0 = rng.randint(-6, 6) * 2, rng.randint(-6, 6) * 2, rng.randint(1, 5) * 2, rng.randint(1, 5) * 2
    x1, y1, w1, h1 = rng.randint(-6, 6) * 2 + 1, rng.randint(-6, 6) * 2 + 1, rng.randint(1, 5) * 2, rng.randint(1, 5) * 2
    R = lambda x, y, w, h: [[float(x), float(y)], [float(x + w), float(y)], [float(x + w), float(y + h)], [float(x), float(y + h)]]
    return {"a": {"k": rng.choice(["poly", "line"]), "p": R(x0, y0, w0, h0)}, "b": {"k": rng.choice(["poly", "line"]), "p": R(x1, y1, w1, h1)}}


def check_v(c):
    A, B = c["a"], c["b"]
    e = crossing(A, B)
    ga, gb = mk(A), mk(B)
    ensure(bool(ga.intersects(gb)) == e and bool(gb.intersects(ga)) == e, "rectangles: intersects is not %s", e)


def gen_m(rng):
    n = rng.randint(1, 12)
    ms = []
    for _ in range(n):
        ms.append(star(rng, rng.randint(3, 5), rng.randint(-9, 9), rng.randint(-9, 9), rng.choice([1., 3.]), 10))
    return {"ms": ms, "kind": rng.choice(["line", "poly"]), "q": {"k": rng.choice(["line", "poly"]), "p": star(rng, rng.randint(3, 7), rng.randint(-3, 3), rng.randint(-3, 3), 8., 10)}}


def check_m(c):
    kd = "poly" if c["kind"] == "poly" else "line"
    M = [{"k": kd, "p": m} for m in c["ms"]]
    q = c["q"]
    if any(not general(m, q) for m in M):
        raise Skip
    if kd == "poly":
        mg = Multipolygon([[m] for m in c["ms"]], data={"k": list(range(len(M)))})
    else:
        mg = Multiline(c["ms"], data={"k": list(range(len(M)))})
    g = mk(q)
    x = [crossing(m, q) for m in M]
    ins = [winding(m["p"][0], q["p"]) != 0 for m in M]
    r = mg.touching(g)
    e = [i for i in range(len(M)) if x[i] or (q["k"] == "poly" and ins[i])]
    got = sorted(r.d["k"]) if len(r) else []
    ensure(got == e, "touching gives %s, expected %s", got, e)
    if q["k"] == "poly":
        r = mg.within(g)
        e = [i for i in range(len(M)) if not x[i] and ins[i]]
        got = sorted(r.d["k"]) if len(r) else []
        ensure(got == e, "within gives %s, expected %s", got, e)


CLAUSES = [
    Clause("sweep", "two simple lines or polygons in general position intersect iff some pair of edges crosses, in either order", gen, check, quick=10000, thorough=300000, weight=2),
    Clause("rectangles", "the same for axis-parallel rectangles and open boxes crossing properly", gen_v, check_v, quick=3000, thorough=60000),
    Clause("members", "touching and contained members are found exactly", gen_m, check_m, quick=1500, thorough=40000),
]
