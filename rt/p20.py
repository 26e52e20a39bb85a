"""P20: affine transforms."""
import numpy as np
from core import *
from vg import *


def gen(rng):
    rank = rng.choice([2, 3])
    kind = rng.choice(["point", "line", "polygon", "multipoint", "multiline", "multipolygon"])
    three = rng.random() < .3
    M = [[dy(rng, -3, 3, 1) for _ in range(4 if three else 3)] for _ in range(3 if three else 2)]
    return {"rank": rank, "kind": kind, "M": M, "op": rng.choice(["M", "shift", "rotate"]), "s": [dy(rng, -9, 9), dy(rng, -9, 9)],
            "th": rng.choice([0, 30, 90, -90, 180, 45.5, 720, -390]), "o": [dy(rng, -3, 3), dy(rng, -3, 3)],
            "parts": [gen_pts(rng, rng.randint(3, 6), rank, -9, 9, 2) for _ in range(rng.randint(1, 3))]}


def tr(M, p):
    q = list(p) + [0.0] * (3 - len(p))
    if len(M) == 2:
        r = [M[0][0] * q[0] + M[0][1] * q[1] + M[0][2], M[1][0] * q[0] + M[1][1] * q[1] + M[1][2], q[2]]
    else:
        r = [sum(M[i][k] * q[k] for k in range(3)) + M[i][3] for i in range(3)]
    return tuple(r[:len(p)])


def check(c):
    parts, M = c["parts"], c["M"]
    pr = {"name": "g"}
    data = {"k": list(range(len(parts)))}
    k = c["kind"]
    if k == "point":
        g = Point(tuple(parts[0][0]), properties=pr)
    elif k == "line":
        g = Line(parts[0], properties=pr)
    elif k == "polygon":
        g = Polygon(parts[0], subs=[Polygon(p) for p in parts[1:]], properties=pr)
    elif k == "multipoint":
        g = Multipoint([tuple(p) for p in parts[0]], data={"k": list(range(len(parts[0])))}, properties=pr)
    elif k == "multiline":
        g = Multiline(parts, data=data, properties=pr)
    else:
        g = Multipolygon([[p, [[v + .25 for v in q] for q in p]] for p in parts], data=data, properties=pr)
    op = c["op"]
    if op != "M" and k in ("multiline", "multipolygon"):
        op = "M"
    if op == "shift":
        M = [[1, 0, c["s"][0]], [0, 1, c["s"][1]]]
        r = g.shift(tuple(c["s"]))
    elif op == "rotate":
        t = math.radians(c["th"])
        x, y = c["o"]
        M = [[math.cos(t), -math.sin(t), x - x * math.cos(t) + y * math.sin(t)], [math.sin(t), math.cos(t), y - x * math.sin(t) - y * math.cos(t)]]
        r = g.rotate(c["th"], tuple(c["o"]))
    else:
        A = np.array(M, dtype=np.float64)
        B = A.copy()
        r = g.apply_transform(A)
        ensure((A == B).all(), "the matrix changed")
    ensure(type(r) is type(g) and r is not g, "another type")
    ensure(r.properties == pr and r.crs is g.crs, "properties or crs lost: %s", r.properties)
    def cmp(got, src, what):
        ensure(len(got) == len(src), "%s: %d vertices", what, len(got))
        for a, b in zip(got, src):
            ensure(len(a) == len(b) and pclose(a, tr(M, b), 1e-9), "%s: %s maps to %s, expected %s", what, tuple(b), tuple(a), tr(M, b))
    if k == "point":
        cmp([r.vertex()], [g.vertex()], "point")
        ensure(tuple(g.vertex()) == tuple(parts[0][0]), "the original changed")
    elif k in ("line", "multipoint", "polygon"):
        cmp(r.vertices(), parts[0], k)
        ensure(verts(g) == [tuple(map(float, p)) for p in parts[0]], "the original changed")
        if k == "polygon":
            ensure(len(r.subs) == len(parts) - 1, "%d sub-polygons", len(r.subs))
            for a, b in zip(r.subs, parts[1:]):
                cmp(a.vertices(), b, "sub-polygon")
        if k == "multipoint":
            ensure(r.d["k"] == list(range(len(parts[0]))), "data %s", r.d["k"])
    elif k == "multiline":
        ensure(len(r) == len(parts) and r.d["k"] == data["k"], "members or data lost")
        for a, b in zip(r.vertices(), parts):
            cmp(a, b, k)
    else:
        ensure(len(r) == len(parts) and r.d["k"] == data["k"], "members or data lost")
        for a, b in zip(r.vertices(), parts):
            ensure(len(a) == 2, "%d rings", len(a))
            cmp(a[0], b, k)
            cmp(a[1], [[v + .25 for v in q] for q in b], k + " inner ring")


def gen_fit(rng):
    return {"p": gen_pts(rng, rng.randint(3, 8), 2, -9, 9, 2), "M": [[dy(rng, -3, 3, 1) for _ in range(3)] for _ in range(2)]}


def check_fit(c):
    from karta.vector.geometry import affine_matrix
    P = c["p"]
    if all(abs(orient(P[0], P[1], q)) < 1 for q in P):
        raise Skip
    a = Multipoint([tuple(p) for p in P])
    b = a.apply_transform(np.array(c["M"]))
    M = affine_matrix(a, b)
    ensure(M.shape == (2, 3) and np.allclose(M, np.array(c["M"]), atol=1e-6), "recovered %s, expected %s", M, c["M"])


CLAUSES = [
    Clause("affine", "every vertex (of every part, ring and sub-polygon) goes through the matrix; type, order, properties, data and crs are kept and the original is untouched",
           gen, check, quick=6000, thorough=200000),
    Clause("fit", "the affine fit of exactly matching control points is the matrix", gen_fit, check_fit, quick=600, thorough=20000),
]
