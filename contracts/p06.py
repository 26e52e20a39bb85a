"""P06: nearest sampling, resampling and profiles."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from contracts.rast import Grid, world, grid, transform

ASSUME = ["the contracts are over grids of one or two bands (simple bands; P01 for compressed bands)"]


class Positions(object):
    """RegularGrid.positions by its contract (P03)"""
    def __init__(self, E, n=None):
        self.E, self.calls = E, []
        if n is None:
            self.I, self.J = E.real("row"), E.real("column")
        else:
            self.I, self.J = NP.symbolic("rows", (n,)), NP.symbolic("columns", (n,))

    def __call__(self, x, y):
        self.calls.append((x, y))
        return (self.I, self.J) if isinstance(self.I, SNum) else (self.I.copy(), self.J.copy())


@contract("karta.raster.grid.RegularGrid.sample_nearest: one point", weak=True)
def one(env):
    E = env.E
    G = Grid(env)
    G.g.positions = P = Positions(E)
    x, y = E.real("x"), E.real("y")
    r = G.g.sample_nearest(x, y)
    E.prove("the position of the point", And(len(P.calls) == 1, P.calls[0][0] == x, P.calls[0][1] == y))
    u, v = P.I, P.J
    if isinstance(r, NP.FArr):
        E.prove("not outside", And(u >= -0.5, u <= G.ny - 0.5, v >= -0.5, v <= G.nx - 0.5))
        E.prove("one value for each band", And(r.ndim == 1, r.shape[0] == G.nb))
        E.assume(inner(G, u, v))
        E.prove("the value of the cell nearest", r.at(G.K) == G.old())
    else:
        E.prove("outside", Or(u <= -0.5, u >= G.ny - 0.5, v <= -0.5, v >= G.nx - 0.5))
        E.prove("nodata outside", r == G.nod)


def inner(G, u, v):
    """(u, v) is nearest to the cell looked at, and to no other"""
    return And(*[And(c < 0.5, c > -0.5) for c in (G.I - u, G.J - v)])


def outer(G, u, v):
    return Or(u < -0.5, u > G.ny - 0.5, v < -0.5, v > G.nx - 0.5)


@contract("karta.raster.grid.RegularGrid.sample_nearest: an array of any number of points", weak=True)
def many(env):
    several(env, 0)


@contract("karta.raster.grid.RegularGrid.sample_nearest: an array of any number of rows and columns of points", weak=True)
def table(env):
    several(env, 1)


@contract("karta.raster.grid.RegularGrid.sample_nearest: a list of points", weak=True)
def listed(env):
    several(env, 0, True)


def several(env, two, lists=False):
    E = env.E
    G = Grid(env)
    m, n = E.int("m", 1), E.int("n", 1)
    shape = (m, n) if two else (n,)
    N = m * n if two else n
    G.g.positions = P = Positions(E, N)
    x, y = NP.symbolic("x", shape), NP.symbolic("y", shape)
    a, b = E.int("a", 0), E.int("b", 0)
    E.assume(And(a < m, b < n))
    i = (a, b) if two else (b,)
    k = NP.Flat(m, n).index(a, b) if two else b
    E.skolem = (k,)
    r = G.g.sample_nearest(NP.Listed(x), NP.Listed(y)) if lists else G.g.sample_nearest(x, y)
    # the extremes of the positions within the grid bound that of the point
    E.instantiate(*[s[0].rank(k) for s in list(E.sels)])
    E.prove("the positions of the points", And(len(P.calls) == 1, P.calls[0][0].shape[0] == N, P.calls[0][1].shape[0] == N,
                                               P.calls[0][0].at(k) == x.at(*i), P.calls[0][1].at(k) == y.at(*i)))
    E.prove("shape of the result", And(r.ndim == 1 + len(shape), r.shape[0] == G.nb, *[p == q for p, q in zip(r.shape[1:], shape)]))
    if not two:
        G.unchanged()
    u, v = P.I.at(k), P.J.at(k)
    if E.choose(2):
        E.assume(inner(G, u, v))
        E.prove("its row and column", And(E.round(u) == G.I, E.round(v) == G.J))
        E.prove("the value of the nearest cell", r.at(G.K, *i) == G.old())
    else:
        E.assume(outer(G, u, v))
        E.prove("nodata outside", r.at(G.K, *i) == G.nod)


class Sampled(object):
    """a sampling method: the values at the points asked for"""
    def __init__(self, G, name):
        self.G, self.calls = G, []
        setattr(G.g, name, self)

    def __call__(self, x, y):
        self.calls.append((x, y))
        shape = x.shape if isinstance(x, NP.FArr) else ()
        self.r = NP.symbolic("sampled", (self.G.nb,) + tuple(shape))
        return self.r.copy()


def resampled(E, G, S, r, t, ny, nx):
    """r has the values sampled at its own cell centres"""
    E.prove("transform", And(*[a == b for a, b in zip(r.transform, t)]))
    E.prove("structure", And(r.size[0] == ny, r.size[1] == nx, len(r.bands) == G.nb))
    E.prove("nodata and coordinate system", And(r.nodata == G.nod, r.crs is G.g.crs))
    E.prove("sampled once", len(S.calls) == 1)
    X, Y = S.calls[0]
    i, j = E.int("i", 0), E.int("j", 0)
    E.assume(And(i < ny, j < nx))
    wx, wy = world(t, i, j)
    E.prove("a sample for each cell", And(X.shape[0] == ny, X.shape[1] == nx, Y.shape[0] == ny, Y.shape[1] == nx))
    E.prove("sampled at the centres", And(X.at(i, j) == wx, Y.at(i, j) == wy))
    E.prove("values are those sampled", r.bands[G.K].getblock(0, 0, ny, nx).at(i, j) == S.r.at(G.K, i, j))


@contract("karta.raster.grid.RegularGrid.resample: the first centre stays, new cells are sampled at their centres and cover the grid", weak=True)
def resample(env):
    E = env.E
    G = Grid(env)
    x0, y0, dx, dy, sx, sy = G.T
    E.assume(And(sx == 0, sy == 0, dx > 0, dy > 0))
    S = Sampled(G, ("sample_nearest", "sample_bilinear")[E.choose(2)])
    a, b = E.real("a"), E.real("b")
    E.assume(And(a > 0, b > 0))
    # the hull of the centres (P04)
    h = (x0 + 0.5 * dx, x0 + (G.nx - 0.5) * dx, y0 + 0.5 * dy, y0 + (G.ny - 0.5) * dy)
    G.g.extent = lambda reference="center", crs=None: h
    E.loose_div = True
    r = G.g.resample(a, b, method="nearest" if S.G.g.__dict__.get("sample_nearest") is S else "linear")
    t = (x0 + 0.5 * dx - 0.5 * a, y0 + 0.5 * dy - 0.5 * b, a, b, sx, sy)
    ny, nx = r.size
    resampled(E, G, S, r, t, ny, nx)
    L = E.lemma("whole steps", 4, lambda p, s, q, k: Implies(And(s > 0, q * s == p, k <= q, q < k + 1), And(k * s <= p, p < (k + 1) * s)), sort="real")
    for n, lo, hi, d in ((nx, h[0], h[1], a), (ny, h[2], h[3], b)):
        q = (hi - lo) / d
        E.assume(q * d == hi - lo)
        E.prove("whole steps", And(n - 1 <= q, q < n))
        L(hi - lo, d, q, E.tofloat(n - 1))
        E.prove("covers the grid", And((n - 1) * d <= hi - lo, hi - lo < n * d))
    G.unchanged()


@contract("karta.raster.grid.RegularGrid.resample: refuses steps not positive, and methods unknown")
def refused(env):
    E = env.E
    G = Grid(env)
    a, b = E.real("a"), E.real("b")
    k = E.choose(2)
    if k:
        E.assume(Or(a <= 0, b <= 0))
    else:
        E.assume(And(a > 0, b > 0))
    h = [E.real(n) for n in ("xmin", "xmax", "ymin", "ymax")]
    E.assume(And(h[0] <= h[1], h[2] <= h[3]))
    G.g.extent = lambda reference="center", crs=None: tuple(h)
    try:
        G.g.resample(a, b, method="nearest" if k else "cubic")
    except (ValueError, NotImplementedError):
        E.prove("refused", True)
        return
    E.prove("refused", False)


@contract("karta.raster.grid.RegularGrid._align_origin: the origin moves to the nearest whole number of steps, the new cells are sampled", weak=True)
def align(env):
    E = env.E
    G = Grid(env)
    x0, y0, dx, dy, sx, sy = G.T
    S = Sampled(G, "sample_nearest")
    a, b = E.real("a"), E.real("b")
    E.assume(And(a > 0, b > 0))
    r = G.g._align_origin(a, b)
    t = r.transform
    L = E.lemma("the nearest multiple", 4, lambda v, s, q, k: Implies(And(s > 0, q * s == v, k - q <= 0.5, q - k <= 0.5), And(s * k - v <= 0.5 * s, v - s * k <= 0.5 * s)), sort="real")
    for v, s, o in ((x0, a, t[0]), (y0, b, t[1])):
        k = E.round(v / s)
        E.prove("a whole number of steps", o == s * k)
        L(v, s, v / s, E.tofloat(k))
        E.prove("at most half a step away", And(o - v <= 0.5 * s, v - o <= 0.5 * s))
    resampled(E, G, S, r, (t[0], t[1], dx, dy, sx, sy), G.ny, G.nx)
    G.unchanged()


@contract("karta.raster.grid.RegularGrid.sample: coordinates in the grid's system, for points, multipoints and arrays", weak=True)
def sample(env):
    E = env.E
    G = Grid(env)
    S = Sampled(G, ("sample_nearest", "sample_bilinear")[E.choose(2)])
    kw = {"method": "nearest"} if "sample_nearest" in G.g.__dict__ else [{}, {"method": "bilinear"}][E.choose(2)]
    x, y, z, px, py = [E.real(n) for n in ("x", "y", "z", "px", "py")]
    xs, ys, pxs, pys = [NP.symbolic(n, (E.int("n", 1),)) for n in ("xs", "ys", "pxs", "pys")]

    class CRS(object):
        def transform(self, crs, u, v):
            E.prove("to the coordinate system of the grid", crs is G.g.crs)
            if u is x and v is y:
                return px, py
            E.prove("the coordinates given", u is xs and v is ys)
            return pxs, pys

    class Point(object):
        _geotype = "Point"
        crs = CRS()

        def vertex(self, crs=None):
            E.prove("in the coordinate system of the grid", crs is G.g.crs)
            return (px, py) if three == 0 else (px, py, z)

    class Multipoint(Point):
        _geotype = "Multipoint"

        def coords(self, crs=None):
            E.prove("in the coordinate system of the grid", crs is G.g.crs)
            return pxs, pys
    f = E.choose(6)
    three = E.choose(2) if f == 0 else 0
    if f == 0:
        r, e = G.g.sample(Point(), **kw), (px, py)
    elif f == 1:
        r, e = G.g.sample(Multipoint(), **kw), (pxs, pys)
    elif f == 2:
        r, e = G.g.sample(x, y, **kw), (x, y)
    elif f == 3:
        r, e = G.g.sample(xs, ys, **kw), (xs, ys)
    elif f == 4:
        r, e = G.g.sample(x, y, crs=CRS(), **kw), (px, py)
    else:
        r, e = G.g.sample(xs, ys, crs=CRS(), **kw), (pxs, pys)
    E.prove("sampled once", len(S.calls) == 1)
    k, b = E.int("k", 0), G.K
    n = xs.shape[0]
    E.assume(k < n)
    if isinstance(e[0], NP.FArr):
        E.prove("at the points", And(S.calls[0][0].at(k) == e[0].at(k), S.calls[0][1].at(k) == e[1].at(k), S.calls[0][0].shape[0] == n))
        E.prove("the values sampled", And(r.at(b, k) == S.r.at(b, k), r.shape[1] == n))
    else:
        E.prove("at the point", And(S.calls[0][0] == e[0], S.calls[0][1] == e[1]))
        E.prove("the values sampled", r.at(b) == S.r.at(b))


@contract("karta.raster.grid.RegularGrid.profile: the samples at the points it reports, at the spacing asked for", weak=True)
def profile(env):
    E = env.E
    G = Grid(env)
    n = E.int("n", 1)
    xs, ys = NP.symbolic("xs", (n,)), NP.symbolic("ys", (n,))
    z = NP.symbolic("z", (G.nb, n))
    step, fields, asked = E.real("step"), {}, []

    class Data(object):
        def setfield(self, name, v):
            fields[name] = v

    class Points(object):
        data = Data()

        def coords(self, crs=None):
            E.prove("in the coordinate system of the grid", crs is G.g.crs)
            return xs, ys
    points = Points()

    class Line(object):
        def to_points(self, d):
            asked.append(d)
            return points
    kws = []

    def sampling(*a, **kw):
        E.prove("sampled at the points", len(a) == 2 and a[0] is xs and a[1] is ys)
        kws.append(kw)
        return z
    G.g.sample = sampling
    given = E.choose(2)
    p, v = G.g.profile(Line(), step, method="nearest") if given else G.g.profile(Line())
    E.prove("the method asked for", len(kws) == 1 and kws[0] == ({"method": "nearest"} if given else {}))
    E.prove("the points and the samples", p is points and v is z)
    E.prove("points asked for once", len(asked) == 1)
    if given:
        E.prove("at the spacing", asked[0] == step)
    else:
        dx, dy, sx, sy = G.T[2:]
        E.assume(dx * dy - sx * sy != 0)
        col, row, d = dx * dx + sy * sy, dy * dy + sx * sx, asked[0]
        E.prove("by the shorter step between cells", And(Or(d * d == col, d * d == row), d * d <= col, d * d <= row, d >= 0))
    k = E.int("k", 0)
    E.assume(k < n)
    E.prove("a field for each band", sorted(fields) == ["band_%d" % b for b in range(G.nb)])
    E.prove("fields hold the samples", fields["band_%d" % G.K].at(k) == z.at(G.K, k))
