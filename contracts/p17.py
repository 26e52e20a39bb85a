"""P17: planar segment intersection."""
from vf.main import contract
import z3
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, NAN, term, isnan
from vf.seq import CoordString
from vf.loops import Picked


def q(m):
    return {"q": [[m.get("x%d" % i, 0.0), m.get("y%d" % i, 0.0)] for i in range(4)], "shift": 0}


def seg(E):
    return [E.real("x%d" % i) for i in range(4)], [E.real("y%d" % i) for i in range(4)]


@contract("karta.vector.intersection.intersection: crossing segments give the common point, in either order", clause="segment", case=q, merge_ifs=False)
def crossing(env):
    E = env.E
    f = env.mod("karta.vector.intersection").intersection
    (x0, x1, x2, x3), (y0, y1, y2, y3) = seg(E)
    t, u = E.real("t"), E.real("u")
    E.assume(And(t > 0, t < 1, u > 0, u < 1))
    E.assume((x1 - x0) * (y3 - y2) - (y1 - y0) * (x3 - x2) != 0)
    # the common point defines the ends of the second segment's start
    px, py = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
    E.assume(And(px == x2 + u * (x3 - x2), py == y2 + u * (y3 - y2)))
    if E.choose() == 0:
        r = f(x0, x1, x2, x3, y0, y1, y2, y3)
    else:
        r = f(x2, x3, x0, x1, y2, y3, y0, y1)
    if isnan(r[0]) or isnan(r[1]):
        E.prove("a crossing is reported", False)
    else:
        E.prove("x of the common point", r[0] == px)
        E.prove("y of the common point", r[1] == py)


@contract("karta.vector.intersection.intersection: a reported point is on both segments", clause="segment", case=q, merge_ifs=False)
def onboth(env):
    E = env.E
    f = env.mod("karta.vector.intersection").intersection
    (x0, x1, x2, x3), (y0, y1, y2, y3) = seg(E)
    r = f(x0, x1, x2, x3, y0, y1, y2, y3)
    if isnan(r[0]) or isnan(r[1]):
        E.prove("none is reported as a pair of NaN", isnan(r[0]) and isnan(r[1]))
        return
    x, y = r
    for n, (ax, ay, bx, by) in (("first", (x0, y0, x1, y1)), ("second", (x2, y2, x3, y3))):
        E.prove("in the line of the %s segment" % n, (x - ax) * (by - ay) == (y - ay) * (bx - ax))
        lo, hi = If(ax < bx, ax, bx), If(ax < bx, bx, ax)
        E.prove("in the x range of the %s segment" % n, And(lo <= x, x <= hi))
        lo, hi = If(ay < by, ay, by), If(ay < by, by, ay)
        E.prove("in the y range of the %s segment" % n, And(lo <= y, y <= hi))


@contract("karta.vector.intersection.iscollinear: parallel segments in one line with overlapping ranges", merge_ifs=False)
def collinear(env):
    E = env.E
    f = env.mod("karta.vector.intersection").iscollinear
    (x0, x1, x2, x3), (y0, y1, y2, y3) = seg(E)
    r = f(x0, x1, x2, x3, y0, y1, y2, y3)
    if not isinstance(r, bool):
        r = bool(r)
    rx, ry, sx, sy = x1 - x0, y1 - y0, x3 - x2, y3 - y2
    par = rx * sy == ry * sx
    line = rx * (y3 - y0) == ry * (x3 - x0)
    lo = lambda a, b: If(a < b, a, b)
    hi = lambda a, b: If(a < b, b, a)
    ov = And(lo(x0, x1) <= hi(x2, x3), lo(x2, x3) <= hi(x0, x1), lo(y0, y1) <= hi(y2, y3), lo(y2, y3) <= hi(y0, y1))
    want = And(par, line, ov)
    E.prove("collinear and overlapping", want if r else Not(want))


@contract("karta.vector.intersection.bboxes_overlap: closed ranges share a value in both directions", clause="bbox",
          case=lambda m: {"a": [m.get("a%d" % i, 0.0) for i in range(4)], "b": [m.get("b%d" % i, 0.0) for i in range(4)]})
def overlap(env):
    E = env.E
    f = env.mod("karta.vector.intersection").bboxes_overlap
    a = tuple(E.real("a%d" % i) for i in range(4))
    b = tuple(E.real("b%d" % i) for i in range(4))
    E.assume(And(a[0] <= a[2], a[1] <= a[3], b[0] <= b[2], b[1] <= b[3]))
    r = f(a, b)
    r = bool(r)
    want = And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3])
    E.prove("overlap", want if r else Not(want))


@contract("karta.vector.intersection.all_intersections: the common points of all pairs of edges, in order, and nothing else", sizes=(1, 2))
def every(env):
    E = env.E
    mod = env.mod("karta.vector.intersection")
    na, nb = env.n("na", 1), env.n("nb", 1)
    ra, rb = E.choose(2) == 1, E.choose(2) == 1
    A, B = CoordString.fresh("A", na, rank=2, ring=ra), CoordString.fresh("B", nb, rank=2, ring=rb)
    asked = []
    R8 = [z3.RealSort()] * 8
    fx, fy, fn = (z3.Function("common_" + c, *(R8 + [s])) for c, s in (("x", z3.RealSort()), ("y", z3.RealSort()), ("none", z3.BoolSort())))

    def inter(*a):
        # by contract: two NaN or the common point, functions of the eight numbers
        a = [z3.simplify(term(t, True)) for t in a]
        if E.branch(fn(*a)):
            return NAN, NAN
        return SNum(fx(*a)), SNum(fy(*a))
    mod.intersection = inter
    V = lambda cs, n, i, d: cs.at(cs.wrap(i), d)

    def args(i, j):
        out = []
        for d in (0, 1):
            out += [V(A, na, i, d), V(A, na, i + 1, d), V(B, nb, j, d), V(B, nb, j + 1, d)]
        return [z3.simplify(term(t, True)) for t in out]
    ea, eb = na - (0 if ra else 1), nb - (0 if rb else 1)
    keep = lambda i, j: SBool(z3.Not(fn(*args(i, j))))
    same = lambda v, i, j: And(v[0] == SNum(fx(*args(i, j))), v[1] == SNum(fy(*args(i, j)))) if len(v) == 2 else False
    E.picks["common points"] = ((ea, eb), keep, same)
    r = mod.all_intersections(A, B)
    if isinstance(r, Picked):
        E.prove("exactly one point for each pair of edges with one", r.whole(E))
        return
    want = [(i, j) for i in range(int(ea)) for j in range(int(eb)) if bool(keep(i, j))]
    E.prove("exactly one point for each pair of edges with one", And(len(r) == len(want), *[same(v, i, j) for v, (i, j) in zip(r, want)]))
