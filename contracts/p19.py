"""P19: planar length, bounding box and polygon measures."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, smin, smax, isnan
from vf.seq import CoordString
from vf.ghost import rec


@contract("karta.vector.vectorgeo.length: the sum of the lengths of all edges, the closing edge of a ring included", sizes=(1, 2, 3))
def length(env):
    E = env.E
    f = env.mod("karta.vector.vectorgeo").length
    n = env.n("n", 1)
    ring = E.choose(2) == 1
    cs = CoordString.fresh("P", n, rank=2 + E.choose(2), ring=ring)
    V = lambda i, d: cs.at(cs.wrap(i), d)

    def edge(i):
        dx, dy = V(i + 1, 0) - V(i, 0), V(i + 1, 1) - V(i, 1)
        return E.sqrt(dx * dx + dy * dy, nofork=True)
    L = rec(E, "L", 0, lambda t, i: t + edge(i))
    E.ghosts = {"X": lambda k: V(k, 0), "Y": lambda k: V(k, 1), "L": L}
    r = f(cs)
    E.prove("sum over the edges", r == L(n if ring else n - 1))


@contract("karta.vector.vectorgeo.bbox: the least and greatest coordinates over all vertices", sizes=(1, 2, 3, 4))
def bbox(env):
    E = env.E
    f = env.mod("karta.vector.vectorgeo").bbox
    n = env.n("n", 1)
    cs = CoordString.fresh("P", n, rank=2 + E.choose(2), ring=E.choose(2) == 1)
    V = cs.at
    # extremes of the first k + 1 vertices
    gs = {}
    for nm, d, op in (("xmin", 0, smin), ("ymin", 1, smin), ("xmax", 0, smax), ("ymax", 1, smax)):
        gs[nm] = rec(E, nm, V(0, d), lambda t, i, d=d, op=op: op(t, V(i + 1, d)))
    E.ghosts = dict(gs, X=lambda k: V(k, 0), Y=lambda k: V(k, 1))
    r = f(cs)
    E.prove("a box of four", len(r) == 4)
    for v, nm in zip(r, ("xmin", "ymin", "xmax", "ymax")):
        E.prove("%s over the vertices" % nm, v == gs[nm](n - 1))


@contract("karta.vector.vectorgeo.bbox: NaN without vertices")
def bbox0(env):
    E = env.E
    r = env.mod("karta.vector.vectorgeo").bbox(CoordString([], ring=E.choose(2) == 1))
    E.prove("four NaN", len(r) == 4 and all(isnan(v) for v in r))


def ring(env, cls="Polygon", lo=1):
    """an arbitrary polygon of n vertices in the cartesian system"""
    E = env.E
    g = env.mod("karta.vector.geometry")
    n = env.n("n", lo)
    cs = CoordString.fresh("P", n, rank=2, ring=cls == "Polygon")
    p = getattr(g, cls)(cs)
    X = lambda i: cs.at(cs.wrap(i), 0)
    Y = lambda i: cs.at(cs.wrap(i), 1)
    return g, p, cs, n, X, Y


def sums(E, X, Y):
    """partial sums over the edges 0..k-1"""
    cr = lambda i: X(i) * Y(i + 1) - X(i + 1) * Y(i)
    return dict(
        A2=rec(E, "A2", 0, lambda t, i: t + cr(i)),
        CX=rec(E, "CX", 0, lambda t, i: t + (X(i) + X(i + 1)) * cr(i)),
        CY=rec(E, "CY", 0, lambda t, i: t + (Y(i) + Y(i + 1)) * cr(i)))


class Sub(object):
    """a sub-polygon known by its measures"""
    def __init__(self, E, i):
        self.area = E.real("sub_area%d" % i)
        self.perimeter = E.real("sub_perimeter%d" % i)


@contract("karta.vector.geometry.Polygon.area: half the absolute sum of the cross products over all edges, less the areas of the sub-polygons",
          sizes=(1, 2, 3, 4))
def area(env):
    E = env.E
    g, p, cs, n, X, Y = ring(env)
    S = sums(E, X, Y)
    subs = [Sub(E, i) for i in range(E.choose(3))]
    p.subs = subs
    # the trapezium rule relative to any ordinate, by partial summation
    A2 = S["A2"]

    def trap(k):
        x0 = E.extremes[-1] if E.extremes else 0
        return (A2(k) + X(k) * Y(k) - X(0) * Y(0)) / 2 - x0 * (Y(k) - Y(0))
    E.ghosts = {"A2": A2, "trap": trap}
    r = p.area
    a = A2(n)
    want = If(a >= 0, a, -a) / 2
    for s in subs:
        want = want - s.area
    E.prove("half the sum of cross products over all edges", r == want)


@contract("karta.vector.geometry.Polygon.isclockwise: the signed area is negative", sizes=(1, 2, 3, 4))
def clockwise(env):
    E = env.E
    g, p, cs, n, X, Y = ring(env)
    A2 = sums(E, X, Y)["A2"]
    # edges (i-1, i): the sum over k of them, against A2 shifted by one edge
    E.ghosts = {"B": lambda k: -(A2sh(k)) + 0}

    def A2sh(k):
        # edges from vertex -1: cross(-1) + A2(k-1), and the telescoping rest
        if isinstance(k, int) and k == 0:
            return 0
        l = n - 1
        c = X(l) * Y(0) - X(0) * Y(l)
        q = c + A2(k - 1)
        return E.simp(If(k == 0, 0, q - (X(k - 1) * Y(k - 1) - X(l) * Y(l))))
    r = p.isclockwise()
    r = bool(r)
    a = A2(n)
    E.prove("orientation", a < 0 if r else a >= 0)


@contract("karta.vector.geometry.Polygon.centroid: the area centroid over all edges", sizes=(3, 4))
def centroid(env):
    E = env.E
    g, p, cs, n, X, Y = ring(env, lo=3)
    S = sums(E, X, Y)
    # the code starts from the closing edge
    last = n - 1
    cr = X(last) * Y(0) - X(0) * Y(last)
    first = dict(A2=cr, CX=(X(last) + X(0)) * cr, CY=(Y(last) + Y(0)) * cr)

    def shifted(nm):
        return lambda k: 0 if isinstance(k, int) and k == 0 else E.simp(If(k == 0, 0, S[nm](k - 1) + first[nm]))
    E.ghosts = dict((nm, shifted(nm)) for nm in S)
    E.ghosts.update(("plain" + nm, S[nm]) for nm in S)
    E.assume(S["A2"](n) != 0)
    r = p.centroid
    a = S["A2"](n)
    E.prove("x", r.x * 3 * a == S["CX"](n))
    E.prove("y", r.y * 3 * a == S["CY"](n))
    E.prove("kind", type(r).__name__ == "Point" and r.crs is p.crs)


def edgelen(E, X, Y):
    def e(i):
        dx, dy = X(i + 1) - X(i), Y(i + 1) - Y(i)
        return E.sqrt(dx * dx + dy * dy, nofork=True)
    return e


@contract("karta.vector.geometry.Polygon.perimeter: the sum of the lengths of all edges and of the perimeters of the sub-polygons", sizes=(1, 2, 3))
def perimeter(env):
    E = env.E
    g, p, cs, n, X, Y = ring(env)
    L = rec(E, "L", 0, lambda t, i: t + edgelen(E, X, Y)(i))
    p.subs = [Sub(E, i) for i in range(E.choose(3))]
    E.ghosts = {"L": L}
    r = p.perimeter
    want = L(n)
    for s in p.subs:
        want = want + s.perimeter
    E.prove("sum over the edges", r == want)


@contract("karta.vector.geometry.Line.cumulength: item i is the length up to vertex i", sizes=(1, 2, 3))
def cumulength(env):
    E = env.E
    g, p, cs, n, X, Y = ring(env, "Line")
    L = rec(E, "L", 0, lambda t, i: t + edgelen(E, X, Y)(i))
    E.ghosts = {"L": L, "X": X, "Y": Y}
    E.list_ghosts = {"L": L}
    r = p.cumulength()
    from vf.sseq import toseq
    r = toseq(r)
    E.prove("one item for each vertex", r.n == n)
    s = E.int("s", 0) if env.size is None else E.choose(n)
    E.assume(s < n)
    E.prove("length up to the vertex", r.f(s) == L(s))


@contract("karta.vector.geometry: planar bbox and extent of lines and polygons are those of their vertices")
def boxes(env):
    E = env.E
    g, p, cs, n, X, Y = ring(env, ("Line", "Polygon", "Multipoint")[E.choose(2)])
    box = tuple(E.real(k) for k in ("xmin", "ymin", "xmax", "ymax"))
    seen = []

    def contract_of_bbox(c):
        seen.append(c)
        return box
    vg = env.mod("karta.vector.vectorgeo")
    old, vg.bbox = vg.bbox, contract_of_bbox
    try:
        b = p.bbox()
        e = p.extent()
    finally:
        vg.bbox = old
    E.prove("box of its vertices", all(c is p._vertices for c in seen) and len(seen) > 0)
    E.prove("bbox", And(*[x == y for x, y in zip(b, box)]))
    E.prove("extent is xmin, xmax, ymin, ymax", And(e[0] == box[0], e[1] == box[2], e[2] == box[1], e[3] == box[3]))
