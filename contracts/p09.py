"""P09: gridding of points."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from vf.ghost import rec


def within(E, a, n, m):
    """the precondition 0 <= a[k] < m for all k, used wherever an element is"""
    f = a.snapshot()

    def g(k):
        v = f(k)
        E.add(z3.Implies(z3.And(term(k) >= 0, term(k) < term(n)), z3.And(v.t >= 0, v.t < term(m))))
        return v
    return NP.FArr((n,), g, a.dtype)


@contract("karta.raster.crfuncs.fillarray_double: every cell holds the mean of its values, nodata where there are none", abs_all=True, sizes=(1, 2))
def fill(env):
    E = env.E
    f = env.mod("karta.raster.crfuncs").fillarray_double
    ny, nx, n = env.n("ny", 1), env.n("nx", 1), env.n("n", 0)
    A = NP.zeros((ny, nx))
    I, J = [within(E, NP.symbolic(s, (n,), "int32"), n, m) for s, m in (("I", ny), ("J", nx))]
    Z = NP.symbolic("Z", (n,))
    nod = E.real("nodata")
    p, q = E.int("p", 0), E.int("q", 0)
    E.assume(And(p < ny, q < nx))
    here = lambda k: And(I.at(k) == p, J.at(k) == q)
    S = rec(E, "S", 0, lambda v, k: v + If(here(k), Z.at(k), 0.0))
    C = rec(E, "C", 0, lambda v, k: v + If(here(k), 1, 0), sort="int")
    E.skolem = (p, q)
    E.cell_ghosts = {"S": S, "C": C}
    E.columns = True
    M = E.real("mean")              # there is such a number
    E.assume(Implies(C(n) != 0, M * C(n) == S(n)))
    E.arr_ghosts = {"mean": lambda a, b: If(C(n) != 0, M, nod)}
    r = f(A, I, J, Z, nod)
    E.prove("no failure", r == 0)
    c = C(n)
    if E.branch(term(c) == 0):
        E.prove("nodata in cells without values", A.at(p, q) == nod)
    else:
        E.prove("the mean of the values in the cell", A.at(p, q) * c == S(n))


@contract("karta.raster.crfuncs.fillarray_double: lists of different lengths are a failure")
def lengths(env):
    E = env.E
    f = env.mod("karta.raster.crfuncs").fillarray_double
    n = [E.int(c, 0) for c in ("n", "m", "l")]
    E.assume(Or(n[0] != n[1], n[0] != n[2]))
    A = NP.zeros((2, 2))
    r = f(A, NP.symbolic("I", (n[0],), "int32"), NP.symbolic("J", (n[1],), "int32"), NP.symbolic("Z", (n[2],)), 0.0)
    E.prove("a failure", r != 0)
    E.prove("nothing filled in", And(*[A.at(i, j) == 0 for i in (0, 1) for j in (0, 1)]))


@contract("karta.raster.grid.gridpoints: a grid that just covers the points, every cell the mean of its values and NaN without any", weak=True, abs_all=True, sizes=(1, 2))
def gridpoints(env):
    E = env.E
    m = env.mod("karta.raster.grid")
    m.BAND_CLASS_DEFAULT = env.mod("karta.raster.band").SimpleBand
    T = tuple(E.real(n) for n in ("x0", "y0", "dx", "dy")) + (0.0, 0.0)
    x0, y0, dx, dy = T[:4]
    E.assume(And(dx > 0, dy > 0))
    n = env.n("n", 1)
    x, y, z = [NP.symbolic(s, (n,)) for s in "xyz"]
    k, p, q = E.int("k", 0), E.int("p", 0), E.int("q", 0)
    E.assume(k < n)
    made, filled = [], []
    top = [NP.module().max(v) for v in (x, y)]
    E.assume(And(top[0] >= x0, top[1] >= y0))       # not all of the points lie outside
    # the cells of the points, by the contract of indices (P03)
    I, J = NP.symbolic("I", (n,), "int32"), NP.symbolic("J", (n,), "int32")

    def indices(self, u, v):
        E.prove("the points given", And(u.shape[0] == n, v.shape[0] == n, u.at(k) == x.at(k), v.at(k) == y.at(k)))
        made.append(self)
        return within(E, I, n, self.size[0]), within(E, J, n, self.size[1])
    old = m.RegularGrid.indices
    m.RegularGrid.indices = indices
    here = lambda i: And(I.at(i) == p, J.at(i) == q)
    S = rec(E, "S", 0, lambda v, i: v + If(here(i), z.at(i), 0.0))
    C = rec(E, "C", 0, lambda v, i: v + If(here(i), 1, 0), sort="int")
    E.skolem = (p, q)
    E.cell_ghosts = {"S": S, "C": C}
    fast = E.choose(2)

    def fill(array, a, b, c, nod):
        if not fast:
            raise ValueError("not an array of doubles")
        E.prove("nothing in the array", And(array.at(p, q) == 0, array.shape[0] == made[0].size[0], array.shape[1] == made[0].size[1]))
        E.prove("cells and values of the points", And(a.at(k) == I.at(k), b.at(k) == J.at(k), c.at(k) == z.at(k), a.shape[0] == n, b.shape[0] == n, c.shape[0] == n))
        E.prove("missing cells are NaN", nod != nod)
        filled.append(NP.symbolic("filled", tuple(array.shape)))
        array[:, :] = filled[0]
        return 0
    m.crfuncs.fillarray_double = fill
    try:
        g = m.gridpoints(x, y, z, T, None)
    finally:
        m.RegularGrid.indices = old
    ny, nx = g.size
    E.prove("the grid of the transform", And(*[a == b for a, b in zip(g.transform, T)]))
    E.prove("one band", len(g.bands) == 1)
    E.prove("missing cells are NaN", g.nodata != g.nodata)
    L = E.lemma("whole steps", 4, lambda p, s, q, k: Implies(And(s > 0, q * s == p, k <= q, q < k + 1), And(k * s <= p, p < (k + 1) * s)), sort="real")
    for v, o, s, c, t in ((x, x0, dx, nx, top[0]), (y, y0, dy, ny, top[1])):
        E.instantiate(k)
        E.prove("the greatest", v.at(k) <= t)
        d = (t - o) / s
        E.prove("whole steps", And(c - 1 <= d, d < c))
        L(t - o, s, d, E.tofloat(c - 1))
        E.prove("just covers the points", And(o + (c - 1) * s <= t, t < o + c * s))
    E.assume(And(p < ny, q < nx))
    v = g.bands[0].getblock(0, 0, ny, nx).at(p, q)
    if fast:
        E.prove("the cells as filled", v == filled[0].at(p, q))
    elif v != v:
        E.prove("missing only without values", C(n) == 0)
    else:
        E.prove("missing without values", C(n) != 0)
        E.prove("the mean of the values in the cell", v * C(n) == S(n))
