"""P03: georeferencing of grids."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from contracts.rast import transform, world, grid, size


@contract("karta.raster.crfuncs.get_positions_vec: the inverse of the transform at every point", abs_all=True, sizes=(1, 2), strong=True)
def positions_vec(env):
    E = env.E
    f = env.mod("karta.raster.crfuncs").get_positions_vec
    T = transform(E)
    x0, y0, dx, dy, sx, sy = T
    n = env.n("n", 0)
    x, y = NP.symbolic("x", (n,)), NP.symbolic("y", (n,))
    k = E.int("k", 0)
    E.assume(k < n)
    E.skolem = (k,)
    det = dx * dy - sx * sy
    fi = lambda s: (dx * (y.at(s) - y0) - sy * (x.at(s) - x0)) / det - 0.5
    fj = lambda s: (dy * (x.at(s) - x0) - sx * (y.at(s) - y0)) / det - 0.5
    E.arr_ghosts = {"I": fi, "J": fj}
    I, J = f(T, x, y)
    E.prove("as many as points", And(I.shape[0] == n, J.shape[0] == n))
    wx, wy = world(T, I.at(k), J.at(k))
    E.prove("the position maps to the point", And(wx == x.at(k), wy == y.at(k)))


@contract("karta.raster.grid.RegularGrid.positions: inverse of the transform, singly and in lists")
def positions(env):
    E = env.E
    T = transform(E)
    g = grid(env, 2, 2, T)
    x, y = E.real("x"), E.real("y")
    i, j = g.positions(x, y)
    wx, wy = world(T, i, j)
    E.prove("one point", And(wx == x, wy == y))


@contract("karta.raster.coordgen.CoordinateGenerator: single cells, rows, columns and slices give their centres")
def coordgen(env):
    E = env.E
    T = transform(E)
    ny, nx = size(env)
    g = grid(env, ny, nx, T)
    cg = g.coordinates()
    i, j = E.int("i"), E.int("j")
    x, y = cg[i, j]
    ex, ey = world(T, i, j)
    E.prove("a cell", And(x == ex, y == ey))
    st = (1, -1, 2, -3)[E.choose(4)]
    a, b = E.int("a"), E.int("b")
    sl = (slice(a, b, st), slice(None, None, st), slice(a, None, st), slice(None, b, st))[E.choose(4)]
    k = E.int("k", 0)

    def rng(n):
        return NP.slice_(sl, n)
    s0, ln, s = rng(nx)
    X, Y = cg[i, sl]
    E.prove("columns addressed", And(X.shape[0] == ln, Y.shape[0] == ln))
    ex, ey = world(T, i, s0 + k * s)
    E.prove("part of a row", Implies(k < ln, And(X.at(k) == ex, Y.at(k) == ey)))
    s0, ln, s = rng(ny)
    X, Y = cg[sl, j]
    E.prove("rows addressed", And(X.shape[0] == ln, Y.shape[0] == ln))
    ex, ey = world(T, s0 + k * s, j)
    E.prove("part of a column", Implies(k < ln, And(X.at(k) == ex, Y.at(k) == ey)))
    X, Y = cg[sl, :]
    l = E.int("l", 0)
    E.prove("block addressed", And(X.shape[0] == ln, X.shape[1] == nx, Y.shape[0] == ln, Y.shape[1] == nx))
    ex, ey = world(T, s0 + k * s, l)
    E.prove("a block", Implies(And(k < ln, l < nx), And(X.at(k, l) == ex, Y.at(k, l) == ey)))


@contract("karta.raster.grid.RegularGrid.center_coords, vertex_coords, center_llref: given by the transform")
def coords(env):
    E = env.E
    T = transform(E)
    ny, nx = size(env)
    g = grid(env, ny, nx, T)
    x, y = g.center_llref()
    ex, ey = world(T, 0, 0)
    E.prove("first centre", And(x == ex, y == ey))
    i, j = E.int("i", 0), E.int("j", 0)
    E.skolem = (i, j)
    if E.choose(2):
        wx = lambda a, b: world(T, a, b)[0]
        wy = lambda a, b: world(T, a, b)[1]
        E.assume(And(i < ny, j < nx))
        E.arr_ghosts = {"X": wx, "Y": wy}
        X, Y = g.center_coords()
        E.prove("centres: shape", And(X.shape[0] == ny, X.shape[1] == nx, Y.shape[0] == ny, Y.shape[1] == nx))
        E.prove("centres", And(X.at(i, j) == wx(i, j), Y.at(i, j) == wy(i, j)))
    else:
        wx = lambda a, b: world(T, a - 0.5, b - 0.5)[0]
        wy = lambda a, b: world(T, a - 0.5, b - 0.5)[1]
        E.assume(And(i <= ny, j <= nx))
        E.arr_ghosts = {"X": wx, "Y": wy}
        X, Y = g.vertex_coords()
        E.prove("vertices: shape", And(X.shape[0] == ny + 1, X.shape[1] == nx + 1, Y.shape[0] == ny + 1, Y.shape[1] == nx + 1))
        E.prove("vertices", And(X.at(i, j) == wx(i, j), Y.at(i, j) == wy(i, j)))


def by_contract(env, n):
    """get_positions_vec, replaced by its contract (proved above)"""
    E = env.E
    cr = env.mod("karta.raster.crfuncs")
    I, J = NP.symbolic("I", (n,)), NP.symbolic("J", (n,))
    calls = []

    def gpv(T, x, y):
        calls.append((T, x, y))
        return I.copy(), J.copy()
    cr.get_positions_vec = gpv
    return I, J, calls


@contract("karta.raster.grid.RegularGrid.indices: the nearest cell; outside the grid an IndexError")
def indices(env):
    E = env.E
    T = transform(E)
    ny, nx = size(env)
    g = grid(env, ny, nx, T)
    x, y = E.real("x"), E.real("y")
    I, J, calls = by_contract(env, 1)
    u, v = I.at(0), J.at(0)             # the position of the point
    outside = Or(u < -0.5, u > ny - 0.5, v < -0.5, v > nx - 0.5)
    try:
        i, j = g.indices(x, y)
    except IndexError:
        E.prove("raises only on or beyond the outer edge", Or(u <= -0.5, u >= ny - 0.5, v <= -0.5, v >= nx - 0.5))
        return
    E.prove("the position of the point", And(len(calls) == 1, *[a == b for c in calls for a, b in zip(tuple(c[0]) + (c[1].at(0), c[2].at(0)), T + (x, y))]))
    E.prove("a cell of the grid", And(0 <= i, i < ny, 0 <= j, j < nx))
    E.prove("the nearest row", And(i - u <= 0.5, u - i <= 0.5))
    E.prove("the nearest column", And(j - v <= 0.5, v - j <= 0.5))
    E.prove("not outside", Not(outside))


@contract("karta.raster.grid.RegularGrid.positions, indices: every point of a list of any length", sizes=(1, 2))
def indices_list(env):
    E = env.E
    T = transform(E)
    ny, nx = size(env)
    g = grid(env, ny, nx, T)
    n = env.n("n", 1)
    I, J, calls = by_contract(env, n)
    x, y = NP.symbolic("x", (n,)), NP.symbolic("y", (n,))
    k = E.int("k", 0)
    E.assume(k < n)
    E.skolem = (k,)
    p, q = g.positions(x, y)
    E.prove("of the points given", And(calls[0][1].at(k) == x.at(k), calls[0][2].at(k) == y.at(k), len(calls) == 1))
    E.prove("with the grid's transform", And(*[a == b for a, b in zip(calls[0][0], T)]))
    E.prove("positions returned", And(p.at(k) == I.at(k), q.at(k) == J.at(k), p.shape[0] == n, q.shape[0] == n))
    try:
        i, j = g.indices(x, y)
    except IndexError:
        w = range(n) if env.size is not None else list(E.witness)
        E.prove("raises only for a point on or beyond the outer edge",
                Or(*[Or(I.at(a) <= -0.5, I.at(a) >= ny - 0.5, J.at(a) <= -0.5, J.at(a) >= nx - 0.5) for a in w]))
        return
    E.instantiate(k)
    u, v, i, j = I.at(k), J.at(k), i.at(k), j.at(k)
    E.prove("a cell of the grid", And(0 <= i, i < ny, 0 <= j, j < nx))
    E.prove("the nearest cell", And(i - u <= 0.5, u - i <= 0.5, j - v <= 0.5, v - j <= 0.5))
    E.prove("not outside", And(u >= -0.5, u <= ny - 0.5, v >= -0.5, v <= nx - 0.5))


@contract("karta.raster.grid.RegularGrid.positions: refuses lists of different lengths")
def unequal(env):
    E = env.E
    g = grid(env, 2, 2, transform(E))
    n, m = env.n("n", 1), E.int("m", 1)
    E.assume(n != m)
    try:
        g.positions(NP.symbolic("x", (n,)), NP.symbolic("y", (m,)))
    except ValueError:
        E.prove("refused", True)
        return
    E.prove("refused", False)
