"""P24: the dateline-aware bounding box."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, smin, smax, isnan
from vf.seq import CoordString
from vf.ghost import rec

ASSUME = ["longitudes are given in [-180, 180], as the property's precondition states"]


def step(d):
    """the short way round"""
    return If(d > 180, d - 360, If(d < -180, d + 360, d))


@contract("karta.vector.dateline.crosses_dateline: the crossing that makes the sweep the short way")
def crosses(env):
    E = env.E
    f = env.mod("karta.vector.dateline").crosses_dateline
    x0, x1 = E.real("x0"), E.real("x1")
    E.assume(And(x0 >= -180, x0 <= 180, x1 >= -180, x1 <= 180))
    r = f(x0, x1)
    E.prove("its value", r == If(x1 - x0 > 180, 1, If(x1 - x0 < -180, -1, 0)))
    E.prove("the sweep less the crossing is the short way", x1 - x0 - 360 * r == step(x1 - x0))


@contract("karta.vector.dateline.bbox: longitudes swept by the edges taken the short way, latitudes of the edges' bounds", sizes=(1, 2))
def bbox(env):
    E = env.E
    mod = env.mod("karta.vector.dateline")
    n = env.n("n", 1)
    ring = E.choose(2) == 1
    cs = CoordString.fresh("P", n, rank=2, ring=ring)
    X0, Y0 = cs.at(0, 0), cs.at(0, 1)

    def dom(k):
        v = cs.at(k, 0)
        E.add(z3.And(term(v) >= -180, term(v) <= 180))
    if env.size is not None:
        for i in range(n):
            dom(i)
    else:
        plain = cs.at

        def at(i, d):
            v = plain(i, d)
            if d == 0:
                E.add(z3.And(term(v) >= -180, term(v) <= 180))
            return v
        cs.at = at
    V = lambda i, d: cs.at(cs.wrap(i), d)
    # the latitude bounds of one edge: any functions of its ends
    R5 = [z3.RealSort()] * 5
    lo, hi = z3.Function("seg_lo", *R5), z3.Function("seg_hi", *R5)
    ret = z3.Function("seg_ret", *([z3.RealSort()] * 4 + [z3.IntSort()]))

    def seg(f, a):
        return SNum(f(*[z3.simplify(term(t, True)) for t in a]))

    def bndlat(v0, v1, pmin, pmax):
        a = (v0.x, v0.y, v1.x, v1.y)
        pmin[0] = seg(lo, a)
        pmax[0] = seg(hi, a)
        return seg(ret, a)

    # U(i): longitude of vertex i followed from vertex 0 the short way
    U = rec(E, "U", X0, lambda t, i: t + step(V(i + 1, 0) - V(i, 0)))

    def prev(k):
        if isinstance(k, int):
            return max(k - 1, 0)
        return E.simp(If(k >= 1, k - 1, 0))

    def ends(i):
        p = prev(i)
        return (V(p, 0), V(p, 1), V(i, 0), V(i, 1))
    lats = lambda op, f: (lambda t, i: If(seg(ret, ends(i)) == 0, op(t, seg(f, ends(i))), t))
    gs = {"xmin": rec(E, "gxmin", X0, lambda t, i: smin(t, U(i))),
          "xmax": rec(E, "gxmax", X0, lambda t, i: smax(t, U(i))),
          "ymin": rec(E, "gymin", Y0, lats(smin, lo)),
          "ymax": rec(E, "gymax", Y0, lats(smax, hi))}
    E.ghosts = dict(gs, X=lambda k: V(prev(k), 0), Y=lambda k: V(prev(k), 1), R=lambda k: U(prev(k)) - V(prev(k), 0))
    # callees by their contracts
    old = mod.bndlat_sph, mod.crosses_dateline
    mod.bndlat_sph = bndlat
    mod.crosses_dateline = lambda a, b: If(b - a > 180, 1, If(b - a < -180, -1, 0))
    try:
        r = mod.bbox(cs)
    finally:
        mod.bndlat_sph, mod.crosses_dateline = old
    m = n + 1 if ring else n
    wrap = lambda v: E.mod(v + 180, 360) - 180
    E.prove("a box of four", len(r) == 4)
    E.prove("western longitude", r[0] == wrap(gs["xmin"](m)))
    E.prove("eastern longitude", r[2] == wrap(gs["xmax"](m)))
    E.prove("least latitude over all edges", r[1] == gs["ymin"](m))
    E.prove("greatest latitude over all edges", r[3] == gs["ymax"](m))
    E.prove("longitudes in [-180, 180)", And(r[0] >= -180, r[0] < 180, r[2] >= -180, r[2] < 180))
    if env.size is None:
        # lemma, by induction on k: the extremes over k vertices bound each of them
        k, s = E.int("lk", 0), E.int("ls", 0)
        E.push()
        E.add(z3.And(term(s) < term(k), term(gs["xmin"](k)) <= term(U(s)), term(gs["xmax"](k)) >= term(U(s))))
        E.prove("lemma: extremes bound every swept vertex (step)", And(gs["xmin"](k + 1) <= U(s), gs["xmax"](k + 1) >= U(s)))
        E.pop()
        E.prove("lemma: extremes bound every swept vertex (base)", And(gs["xmin"](s + 1) <= U(s), gs["xmax"](s + 1) >= U(s)))


@contract("karta.vector.dateline.bbox: NaN without vertices")
def empty(env):
    E = env.E
    r = env.mod("karta.vector.dateline").bbox(CoordString([], ring=E.choose(2) == 1))
    E.prove("four NaN", len(r) == 4 and all(isnan(v) for v in r))
