"""P18: nearest point of a segment."""
from vf.main import contract
import z3
from vf.sym import And, Or, Not, Implies, If, SNum, term
from vf.seq import CoordString
from vf.ghost import rec


@contract("karta.vector.vectorgeo.pt_nearest_planar: the nearest point of the segment and its distance")
def nearest(env):
    E = env.E
    f = env.mod("karta.vector.vectorgeo").pt_nearest_planar
    x, y, ax, ay, bx, by = [E.real(n) for n in ("x", "y", "ax", "ay", "bx", "by")]
    (px, py), d = f(x, y, ax, ay, bx, by)
    E.prove("in the line of the segment", (px - ax) * (by - ay) == (py - ay) * (bx - ax))
    E.prove("in the x range", And(If(ax < bx, ax, bx) <= px, px <= If(ax < bx, bx, ax)))
    E.prove("in the y range", And(If(ay < by, ay, by) <= py, py <= If(ay < by, by, ay)))
    d2 = (px - x) * (px - x) + (py - y) * (py - y)
    E.prove("distance", And(d >= 0, d * d == d2))
    # no point of the segment is nearer: the segment lies in the half plane
    # beyond the perpendicular through p
    for n, cx, cy in (("start", ax, ay), ("end", bx, by)):
        E.prove("the %s is not nearer" % n, (cx - px) * (px - x) + (cy - py) * (py - y) >= 0)


@contract("karta.vector.geometry._nearest_to_point: the least distance over all edges, the closing edge of a ring included, and the point of that edge", weak=True)
def boundary(env):
    E = env.E
    g = env.mod("karta.vector.geometry")
    vg = env.mod("karta.vector.vectorgeo")
    n = env.n("n", 2)
    poly = E.choose(2) == 1
    cs = CoordString.fresh("P", n, rank=2 + E.choose(2), ring=poly)
    geo = (g.Polygon if poly else g.Line)(cs)
    px, py = E.real("px"), E.real("py")
    p = g.Point((px, py))
    X, Y = [lambda i, d=d: cs.at(cs.wrap(i), d) for d in (0, 1)]
    # the segment kernel by its contract, above
    R = z3.RealSort()
    F = [z3.Function(nm, *([R] * 7)) for nm in ("qx", "qy", "dist")]

    def kernel(*a):
        t = [term(v, True) for v in a]
        r = [SNum(f(*t)) for f in F]
        E.assume(r[2] >= 0)
        return (r[0], r[1]), r[2]
    edge = lambda i: (lambda q: (q[0][0], q[0][1], q[1]))(kernel(px, py, X(i), Y(i), X(i + 1), Y(i + 1)))
    first = lambda i: i == 0
    D = rec(E, "D", -1, lambda v, i: If(Or(first(i), edge(i)[2] < v), edge(i)[2], v))
    QX, QY = [rec(E, "Q%d" % d, 0, lambda v, i, d=d: If(Or(first(i), edge(i)[2] < D(i)), edge(i)[d], v)) for d in (0, 1)]
    E.ghosts = {"D": D, "QX": QX, "QY": QY}
    old, vg.pt_nearest_planar = vg.pt_nearest_planar, kernel
    try:
        d, q = geo._nearest_to_point(p)
    finally:
        vg.pt_nearest_planar = old
    m = n if poly else n - 1
    E.prove("the least distance", And(d == D(m)))
    E.prove("its point", And(len(q) == 2, q[0] == QX(m), q[1] == QY(m)))


@contract("the recursion of the least distance: no edge is nearer, one edge is as near and has the point")
def least(env):
    E = env.E
    R = z3.RealSort()
    e = [z3.Function(nm, z3.IntSort(), R) for nm in ("ex", "ey", "ed")]
    edge = lambda i: [SNum(f(term(i))) for f in e]
    D = rec(E, "D", -1, lambda v, i: If(Or(i == 0, edge(i)[2] < v), edge(i)[2], v))
    QX, QY = [rec(E, "Q%d" % d, 0, lambda v, i, d=d: If(Or(i == 0, edge(i)[2] < D(i)), edge(i)[d], v)) for d in (0, 1)]
    k, s = E.int("k", 1), E.int("s", 0)
    w = z3.Function("witness", z3.IntSort(), z3.IntSort())
    W = lambda k: SNum(w(term(k)))
    # by induction over the number of edges
    claim = lambda k, s, j: And(Implies(And(0 <= s, s < k), D(k) <= edge(s)[2]),
                                0 <= j, j < k, D(k) == edge(j)[2], QX(k) == edge(j)[0], QY(k) == edge(j)[1])
    if E.choose(2):
        E.prove("one edge", claim(1, s, 0))
    else:
        j = E.int("j", 0)
        E.assume(claim(k, s, j))
        near = edge(k)[2] < D(k)
        E.prove("one more edge", claim(k + 1, s, If(near, k, j)))
