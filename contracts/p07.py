"""P07: clipping and resizing keep values at their world position."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from contracts.rast import Grid, world

ASSUME = ["the contracts are over grids of one or two bands (simple bands; P01 for compressed bands)"]


class Positions(object):
    """RegularGrid.positions by its contract (P03): some affine map of the point,
    the inverse of the transform.  Of the four corners of a box and a point in
    it, it is used that no position in the box lies beyond those of all corners."""
    def __init__(self, E):
        self.E, self.calls = E, []
        n = 9

        def corners(k, s, t, a, x, b, c, y, d):
            v = k + s * x + t * y
            cs = [k + s * p + t * q for p in (a, b) for q in (c, d)]
            return Implies(And(a <= x, x <= b, c <= y, y <= d), And(Or(*[p <= v for p in cs]), Or(*[v <= p for p in cs])))

        def products(k, s, t, a, x, b, c, y, d):
            """z3 case distinction: the product with a number lies between the products with the ends"""
            return []
        E.lemma("an affine map of a box has its extremes at the corners", n, corners, sort="real")

    def __call__(self, x, y):
        p = (self.E.fresh("row", "real"), self.E.fresh("column", "real"))
        self.calls.append((x, y) + p)
        return p

    def inside(self, inb, pos):
        """the position of a point in the box of the corners asked for"""
        for k in range(2):
            cs = [c[2 + k] for c in self.calls]
            self.E.assume(Implies(inb, And(Or(*[c <= pos[k] for c in cs]), Or(*[pos[k] <= c for c in cs]))))


class Window(object):
    """takes note of the first row and column read"""
    def __init__(self, ix):
        self.ix = ix

    def __getitem__(self, key):
        self.first = tuple(k.start for k in key[:2])
        return self.ix[key]


def clipped(E, G, r, i0, j0):
    """r is the part of the grid whose first cell is (i0, j0)"""
    x0, y0, dx, dy, sx, sy = G.T
    t = r.transform
    E.prove("transform", And(t[2] == dx, t[3] == dy, t[4] == sx, t[5] == sy))
    E.prove("origin", And(t[0] == x0 + j0 * dx + i0 * sx, t[1] == y0 + i0 * dy + j0 * sy))
    E.prove("as many bands", len(r.bands) == G.nb)
    E.prove("nodata", r.nodata == G.nod)
    p, q = E.int("p", 0), E.int("q", 0)
    E.assume(And(p < r.size[0], q < r.size[1]))
    got = r.bands[G.K].getblock(0, 0, r.size[0], r.size[1]).at(p, q)
    E.prove("the part lies in the grid", And(0 <= i0 + p, i0 + p < G.ny, 0 <= j0 + q, j0 + q < G.nx))
    E.prove("every value at its place", got == G.vals[G.K].at(i0 + p, j0 + q))


@contract("karta.raster.grid.RegularGrid.clip: a part of the grid, every value at its world position, with all cells whose centres are in the box", weak=True)
def clip(env):
    E = env.E
    G = Grid(env)
    G.g.positions = P = Positions(E)
    G.g._bandindexer = W = Window(G.g._bandindexer)
    a, b, c, d = [E.real(n) for n in ("xmin", "xmax", "ymin", "ymax")]
    E.assume(And(a <= b, c <= d))
    if E.choose(2):
        # the box of another coordinate system: the hull of its corners
        px, py = [E.real("px%d" % k) for k in range(4)], [E.real("py%d" % k) for k in range(4)]
        corners = [(x, y) for x in (a, b) for y in (c, d)]

        class Other(object):
            def transform(self, crs, x, y):
                E.prove("from the coordinate system given to that of the grid", crs is G.g.crs)
                E.prove("all corners are transformed", len(x) == len(y) == 4 and And(*[Or(*[And(p == u, q == v) for p, q in zip(x, y)]) for u, v in corners]))
                return list(px), list(py)
        r = G.g.clip(a, b, c, d, crs=Other())
        a, b, c, d = [E.real(n) for n in ("left", "right", "bottom", "top")]
        for v, l, low in ((a, px, True), (b, px, False), (c, py, True), (d, py, False)):
            E.assume(And(Or(*[v == p for p in l]), *[v <= p if low else v >= p for p in l]))
    else:
        r = G.g.clip(a, b, c, d)
    E.prove("the corners of the box", len(P.calls) == 4 and And(*[Or(*[And(p == x, q == y) for p, q, _, _ in P.calls]) for x in (a, b) for y in (c, d)]))
    i0, j0 = W.first
    # the cell looked at, its centre in the box or not
    I, J = G.I, G.J
    inb = SBool(z3.Bool("the centre is in the box"))
    P.inside(inb, (I, J))
    E.prove("no cell in the box is lost", Implies(inb, And(i0 <= I, I < i0 + r.size[0], j0 <= J, J < j0 + r.size[1])))
    clipped(E, G, r, i0, j0)
    G.unchanged()


@contract("karta.raster.grid.RegularGrid.clip: without skew exactly the cells whose centres are in the box", weak=True)
def clip_exact(env):
    E = env.E
    G = Grid(env)
    x0, y0, dx, dy, sx, sy = G.T
    a, b, c, d = [E.real(n) for n in ("xmin", "xmax", "ymin", "ymax")]
    E.assume(And(sx == 0, sy == 0, dx != 0, dy != 0, a <= b, c <= d))
    # positions by its contract (P03), column and row apart: the centres of
    # column v and row w are at x and y
    v, w = {}, {}

    def col(x):
        return v.setdefault(x.t.get_id(), E.fresh("column", "real"))

    def row(y):
        return w.setdefault(y.t.get_id(), E.fresh("row", "real"))
    G.g.positions = lambda x, y: (row(y), col(x))
    G.g._bandindexer = W = Window(G.g._bandindexer)
    r = G.g.clip(a, b, c, d)
    L = E.lemma("a position between those of two ends is that of a point between them", 7,
                lambda s, o, a, b, va, vb, q: Implies(And(s != 0, a <= b, a == o + (va + 0.5) * s, b == o + (vb + 0.5) * s, Or(va <= q, vb <= q), Or(q <= va, q <= vb)),
                                                      And(a <= o + (q + 0.5) * s, o + (q + 0.5) * s <= b)), sort="real")
    p, q = E.int("p", 0), E.int("q", 0)
    E.assume(And(p < r.size[0], q < r.size[1]))
    i, j = W.first
    I, J = E.tofloat(i + p), E.tofloat(j + q)
    va, vb, wc, wd = col(a), col(b), row(c), row(d)
    E.prove("columns within the ends", And(Or(va <= J, vb <= J), Or(J <= va, J <= vb)))
    E.prove("rows within the ends", And(Or(wc <= I, wd <= I), Or(I <= wc, I <= wd)))
    E.assume(And(a == x0 + (va + 0.5) * dx, b == x0 + (vb + 0.5) * dx, c == y0 + (wc + 0.5) * dy, d == y0 + (wd + 0.5) * dy))
    L(dx, x0, a, b, va, vb, J)
    L(dy, y0, c, d, wc, wd, I)
    x, y = world(G.T, I, J)
    E.prove("every centre is in the box", And(a <= x, x <= b, c <= y, y <= d))
    clipped(E, G, r, i, j)


@contract("karta.raster.grid.RegularGrid.resize: cells take the value of the nearest old cell, or nodata outside the old grid", weak=True)
def resize(env):
    E = env.E
    G = Grid(env)
    x0, y0, dx, dy, sx, sy = G.T
    a, b, c, d = [E.real(n) for n in ("xmin", "ymin", "xmax", "ymax")]
    E.assume(And(sx == 0, sy == 0, dx > 0, dy > 0, a < c, b < d))
    box = (x0, y0, x0 + G.nx * dx, y0 + G.ny * dy)
    G.g.bbox = lambda: box                       # P04
    E.lemma("a whole number of steps, divided by the step", 3, lambda s, n, q: Implies(And(s > 0, q * s == s * n), q == n), sort="real")
    E.lemma("a quotient of positive numbers is positive", 3, lambda p, s, q: Implies(And(p > 0, s > 0, q * s == p), q > 0), sort="real")
    E.loose_div = True
    m = []
    for lo, hi, s in ((a, c, dx), (b, d, dy)):
        q = (hi - lo) / s
        n = -E.floor(-q)
        # by the lemmas; otherwise quotients are any numbers here
        E.assume(q > 0)
        x, y = term((lo + s * n) - lo, True), term(s, True)
        E.byname[("q", x.get_id(), y.get_id())] = (term(n, True), (x, y))
        m.append(n)
    mx, my = m
    r = G.g.resize((a, b, c, d))
    t = r.transform
    E.prove("transform", And(t[0] == a, t[1] == b, t[2] == dx, t[3] == dy, t[4] == 0, t[5] == 0))
    E.prove("the box is covered", And(r.size[0] == my, r.size[1] == mx))
    E.prove("as many bands", len(r.bands) == G.nb)
    E.prove("nodata", r.nodata == G.nod)
    p, q = E.int("p", 0), E.int("q", 0)
    E.assume(And(p < r.size[0], q < r.size[1]))
    # columns and rows from the old to the new first cell, and the nearest whole numbers
    u, v = (a - x0) / dx, (b - y0) / dy
    near = lambda w: (E.floor(w + 0.5), -E.floor(-(w - 0.5)))
    got = r.bands[G.K].getblock(0, 0, r.size[0], r.size[1]).at(p, q)
    opts = []
    for m in near(v):
        for n in near(u):
            i, j = p + m, q + n
            inside = And(0 <= i, i < G.ny, 0 <= j, j < G.nx)
            opts.append(got == If(inside, G.vals[G.K].at(i, j), G.nod))
    E.prove("the value of the nearest cell, or nodata", Or(*opts))
    G.unchanged()
