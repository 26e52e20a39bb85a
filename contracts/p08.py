"""P08: merging grids."""
from fractions import Fraction
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const, smin, smax
from vf import npshim as NP

ASSUME = ["the contracts are over one or two grids of floats with one or two bands, positive resolution and no skew",
          "world coordinates along an axis are exact numbers a*origin + c*resolution, resolution > 0"]


class Along(object):
    """the number o*x + c*d, where x is the origin of the first grid and d > 0 its resolution along this axis"""
    def __init__(self, E, axis, o, c):
        self.E, self.axis, self.o, self.c = E, axis, o, c

    def _float(self):
        return self

    def _lift(self, v):
        if isinstance(v, Along):
            return v if v.axis == self.axis else None
        return Along(self.E, self.axis, 0, 0) if const(v) == 0 else None

    def __add__(self, v):
        v = self._lift(v)
        return NotImplemented if v is None else Along(self.E, self.axis, self.o + v.o, self.c + v.c)

    __radd__ = __add__

    def __sub__(self, v):
        v = self._lift(v)
        return NotImplemented if v is None else Along(self.E, self.axis, self.o - v.o, self.c - v.c)

    def __mul__(self, n):
        return NotImplemented if isinstance(n, Along) else Along(self.E, self.axis, self.o * n, self.c * n)

    __rmul__ = __mul__

    def __truediv__(self, v):
        v = self._lift(v)
        if v is None or v.o or self.o:
            return NotImplemented
        return self.E.tofloat(self.c) / v.c

    def _cmp(self, v, f):
        v = self._lift(v)
        return NotImplemented if v is None or v.o != self.o else f(self.c, v.c)

    def __lt__(self, v):
        return self._cmp(v, lambda a, b: a < b)

    def __le__(self, v):
        return self._cmp(v, lambda a, b: a <= b)

    def __gt__(self, v):
        return self._cmp(v, lambda a, b: a > b)

    def __ge__(self, v):
        return self._cmp(v, lambda a, b: a >= b)

    def __eq__(self, v):
        return self._cmp(v, lambda a, b: a == b)

    def __ne__(self, v):
        return self._cmp(v, lambda a, b: a != b)

    __hash__ = None

    def _min(self, v):
        if v.axis != self.axis or v.o != self.o:
            raise TypeError("the smaller of numbers that cannot be compared")
        return Along(self.E, self.axis, self.o, smin(self.c, v.c))

    def _max(self, v):
        if v.axis != self.axis or v.o != self.o:
            raise TypeError("the larger of numbers that cannot be compared")
        return Along(self.E, self.axis, self.o, smax(self.c, v.c))


def along(E, offx, offy, sx=0.0, sy=0.0, ux=1, uy=1):
    """a transform whose origin is (offx, offy) cells from that of the first grid"""
    return (Along(E, 0, 1, offx), Along(E, 1, 1, offy), Along(E, 0, 0, ux), Along(E, 1, 0, uy), sx, sy)


class Merged(object):
    """n grids of one structure, each (oy, ox) cells from the first"""
    def __init__(self, env, n=2, dt="float64", nb=0):
        E = self.E = env.E
        m = self.m = env.mod("karta.raster.grid")
        band = env.mod("karta.raster.band").SimpleBand
        typ = NP.TYPES[dt]
        m.BAND_CLASS_DEFAULT = m.CompressedBand = band
        self.nb = nb or 1 + E.choose(2)
        self.K = E.choose(self.nb)
        self.nod = [(E.real if dt[0] == "f" else E.int)("nodata%d" % k) for k in range(n)]
        self.sizes = [(E.int("ny%d" % k, 1), E.int("nx%d" % k, 1)) for k in range(n)]
        self.off = [(0, 0)] + [(E.int("oy%d" % k), E.int("ox%d" % k)) for k in range(1, n)]
        self.vals, self.grids = [], []
        for k in range(n):
            ny, nx = self.sizes[k]
            oy, ox = self.off[k]
            vs = [NP.symbolic("cells%d%d" % (k, b), (ny, nx), dt) for b in range(self.nb)]
            bands = [band((ny, nx), typ) for b in range(self.nb)]
            for b, v in zip(bands, vs):
                b._array = v.copy()
            self.vals.append(vs)
            self.grids.append(m.RegularGrid(along(E, ox, oy), bands=bands, nodata_value=self.nod[k]))

    def at(self, k, i, j, b):
        """cell of grid k at (i, j) of the first grid: (there is one, it has data, value)"""
        (ny, nx), (oy, ox) = self.sizes[k], self.off[k]
        p, q = i - oy, j - ox
        inside = And(0 <= p, p < ny, 0 <= q, q < nx)
        return And(inside, *[v.at(p, q) != self.nod[k] for v in self.vals[k]]), self.vals[k][b].at(p, q)


def mean(E, w, v, has):
    """steps of the argument: the normalised weights and the quotient of the sums"""
    L = E.lemma("a mean does not change with the scale of the weights", 7, lambda r, a, b, p, q, x, y: Implies(
        And(p > 0, q > 0, a * (p + q) == 2 * p, b * (p + q) == 2 * q, a > 0, b > 0, r * (a + b) == a * x + b * y), r * (p + q) == p * x + q * y), sort="real")
    P = E.lemma("a normalised weight is positive", 3, lambda a, p, s: Implies(And(p > 0, s > 0, a * s == 2 * p), a > 0), sort="real")
    qs = [v for k, v in E.memo.items() if isinstance(k, tuple) and k[0] == "q"]
    if len(qs) < 3:
        return
    (a, na, da), (b, nb, db), (r, n, d) = qs[:2] + qs[-1:]
    a, b, r, n, d = [SNum(t) for t in (a, b, r, n, d)]
    P(a, w[0], w[0] + w[1])
    P(b, w[1], w[0] + w[1])
    num = sum(c * x for c, x, h in zip((a, b), v, has) if h)
    den = sum(c for c, h in zip((a, b), has) if h)
    E.prove("the sum of the weighted values", n == num)
    E.prove("the sum of the weights", d == den)
    if all(has):
        L(r, a, b, w[0], w[1], v[0], v[1])
    else:
        Q = E.lemma("the mean of one value", 3, lambda r, a, x: Implies(And(a > 0, r * a == a * x), r == x), sort="real")
        Q(r, a if has[0] else b, v[0] if has[0] else v[1])


def merged(env, n, dt="float64", nb=0):
    E = env.E
    M = Merged(env, n, dt, nb)
    w = None
    if dt[0] == "f" and E.choose(2):
        w = [E.real("w%d" % k) for k in range(n)]
        for v in w:
            E.assume(v > 0)
    r = M.m.merge(M.grids) if w is None else M.m.merge(M.grids, weights=w)
    if n == 1:
        lo, hi = (0, 0), M.sizes[0]
    else:
        lo = [If(o < 0, o, 0) for o in M.off[1]]
        hi = [If(o + b > a, o + b, a) for o, a, b in zip(M.off[1], M.sizes[0], M.sizes[1])]
    E.prove("transform", And(*[a == b for a, b in zip(r.transform, along(E, lo[1], lo[0]))]))
    E.prove("covers the union", And(r.size[0] == hi[0] - lo[0], r.size[1] == hi[1] - lo[1]))
    E.prove("structure", And(len(r.bands) == M.nb, r.nodata == M.nod[0]))
    i, j = E.int("i", 0), E.int("j", 0)
    E.assume(And(i < r.size[0], j < r.size[1]))
    got = r.bands[M.K].getblock(0, 0, *r.size).at(i, j)
    cells = [M.at(k, i + lo[0], j + lo[1], M.K) for k in range(n)]
    has = [E.branch(c[0].t) if isinstance(c[0], SBool) else c[0] for c in cells]
    if not any(has):
        E.prove("nodata where no grid has data", got == M.nod[0])
    elif dt[0] != "f":
        vs = [c[1] for c, h in zip(cells, has) if h]
        qs = [v for k, v in E.memo.items() if isinstance(k, tuple) and k[0] == "q"]
        if qs:
            r, x, d = map(SNum, qs[-1])
            E.prove("the sum of the values", x == sum(vs))
            E.prove("their number", d == len(vs))
            E.lemma("a mean of %d" % len(vs), 3, lambda r, d, x: Implies(And(d == len(vs), r * d == x), r == x / len(vs)), sort="real")(r, d, x)
        E.prove("the mean of the grids that have data, rounded", got == E.round(E.tofloat(sum(vs)) / len(vs)))
    else:
        ws = w or [1.0] * n
        if w and n == 2:
            mean(E, w, [c[1] for c in cells], has)
        E.prove("the weighted mean of the grids that have data", got * sum(v for v, h in zip(ws, has) if h) == sum(v * c[1] for v, h, c in zip(ws, has, cells) if h))
    for g, vs, s in zip(M.grids, M.vals, M.sizes):
        p, q = E.int("p", 0), E.int("q", 0)
        E.prove("the grids are unchanged", Implies(And(p < s[0], q < s[1]), g.bands[M.K].getblock(0, 0, *s).at(p, q) == vs[M.K].at(p, q)))


@contract("karta.raster.grid.merge: two grids: the union, each cell the weighted mean of the data, nodata without any", weak=True)
def two(env):
    merged(env, 2)


@contract("karta.raster.grid.merge: two grids of integers: the union, each cell the mean of the data, rounded, nodata without any", weak=True)
def whole(env):
    merged(env, 2, "int32", 1)


@contract("karta.raster.grid.merge: one grid", weak=True)
def single(env):
    merged(env, 1)


@contract("karta.raster.grid.merge: grids that do not fit together are refused", weak=True)
def refused(env):
    E = env.E
    m = env.mod("karta.raster.grid")
    err = env.mod("karta.errors").GridError
    band = env.mod("karta.raster.band").SimpleBand
    m.BAND_CLASS_DEFAULT = m.CompressedBand = band

    def grid(T, nb, k):
        ny, nx = E.int("ny%d" % k, 1), E.int("nx%d" % k, 1)
        bands = [band((ny, nx), NP.TYPES["float64"]) for _ in range(nb)]
        for b in bands:
            b._array = NP.symbolic("cells%d" % k, (ny, nx))
        return m.RegularGrid(T, bands=bands, nodata_value=-1.0)
    ox, oy, ux, uy, sx, sy = [E.real(c) for c in ("ox", "oy", "ux", "uy", "sx", "sy")]
    last = E.choose(2)
    g0 = grid(along(E, 0, 0), 1, 0)
    good = [grid(along(E, E.int("gx"), E.int("gy")), 1, 2)] if last else []
    case = E.choose(4)
    if case == 0:
        # another resolution or another skew
        E.assume(Or(ux != 1, uy != 1, sx != 0, sy != 0))
        g, want = grid(along(E, ox, oy, sx, sy, ux, uy), 1, 1), err
    elif case == 1:
        # not a whole number of cells apart
        E.assume(Or(*[abs(o - E.round(o)) > Fraction(1, 10 ** 5) for o in (ox, oy)]))
        g, want = grid(along(E, ox, oy), 1, 1), ValueError
    elif case == 2:
        g, want = grid(along(E, E.int("gx1"), E.int("gy1")), 2, 1), ValueError
    else:
        g, want = object(), TypeError
    try:
        m.merge([g0] + good + [g])
        E.prove("refused", False)
    except want:
        E.prove("refused", True)
