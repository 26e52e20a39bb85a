"""P01: raster bands hold what was last written to each cell."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from vf import sym

ASSUME = ["blosc.decompress(blosc.compress(b)) == b and numpy's tostring/frombuffer are inverse: a stored chunk reads back as it was "
          "(CompressedBand._store and _retrieve, evaluated at run time, not proved)"]


def ceil(E, v):
    return 0 - E.floor(0 - v)


class Comp(object):
    """a CompressedBand of arbitrary size, chunk size and content"""
    def __init__(self, env, blank=False):
        E = self.E = env.E
        cls = env.mod("karta.raster.band").CompressedBand
        H, W, ch, cw = self.H, self.W, self.ch, self.cw = [E.int(n, 1) for n in ("H", "W", "ch", "cw")]
        b = self.band = cls((1, 1), float, chunksize=(1, 1))
        init = E.real("init")
        b.size, b._chunksize, b._initval = (H, W), (ch, cw), init
        b.nchunkrows = nr = ceil(E, E.tofloat(H) / E.tofloat(ch))
        b.nchunkcols = nc = ceil(E, E.tofloat(W) / E.tofloat(cw))
        self.nr, self.nc = nr, nc
        n = nr * nc
        self.D = D = NP.symbolic("chunks", (n, ch, cw))
        self.S = S = NP.symbolic("status", (n,), "int8", 0, 1)
        b.chunkstatus = S
        b._data = None

        def store(array, index):
            D[index, :, :] = array
            S[index] = 1

        def retrieve(index):
            return D[index, :, :].copy()
        b._store, b._retrieve = store, retrieve
        # the cell looked at
        Y, X = self.Y, self.X = E.int("Y", 0), E.int("X", 0)
        E.assume(And(Y < H, X < W))
        self.R, self.C = E.floordiv(Y, ch), E.floordiv(X, cw)
        self.c = self.R * nc + self.C
        self.a, self.b = Y - self.R * ch, X - self.C * cw
        self.flat = E.lemma("chunk numbers are unique", 5, lambda i, j, r, c, m: Implies(
            And(0 <= j, j < m, 0 <= c, c < m), SBool(tb(i * m + j == r * m + c) == tb(And(i == r, j == c)))),
            hints=lambda i, j, r, c, m: [])
        self.inside = E.lemma("chunk numbers are in range", 4, lambda i, j, n, m: Implies(
            And(0 <= j, j < m, 0 <= i, i < n), And(0 <= i * m + j, i * m + j < n * m)))

    def cell(self):
        """what the band holds at the cell"""
        s = self.S.at(self.c)
        return If(s == 1, self.D.at(self.c, self.a, self.b), self.band._initval)

    def block(self):
        E = self.E
        y, x, n, m = E.int("yoff", 0), E.int("xoff", 0), E.int("n", 0), E.int("m", 0)
        E.assume(And(y + n <= self.H, x + m <= self.W))
        self.ys, self.xs = E.floordiv(y, self.ch), E.floordiv(x, self.cw)
        self.ye, self.xe = ceil(E, E.tofloat(y + n) / self.ch), ceil(E, E.tofloat(x + m) / self.cw)
        return y, x, n, m

    def inv(self, goals, other=(None, None)):
        """invariants of the loops over the chunk rows and columns: the chunks visited
        hold the goal, the others are unchanged"""
        E = self.E
        R, C = self.R, self.C

        def f(u, fn, fn0, k, loop):
            idx, goal = goals.get(u, other)
            if idx is None:
                return []
            outer = [l.k for l in E.loopstack if l is not loop]
            if not outer:
                done = And(R >= self.ys, R < self.ys + k, C >= self.xs, C < self.xe)
            else:
                i, j = self.ys + outer[0], self.xs + k
                done = And(R == i, C >= self.xs, C < j)
                self.flat(i, j, R, C, self.nc)
                self.inside(i, j, self.nr, self.nc)
            v, v0 = fn(*idx), fn0(*idx)
            return [("done", Implies(done, v == goal)), ("rest", Implies(Not(done), v == v0))]
        E.arr_inv = f


def tb(x):
    from vf.sym import tbool
    return tbool(x)


@contract("karta.raster.band.CompressedBand.setblock, _getchunks: the cells of the block get the values, all others are unchanged",
          abs_all=True, inline_gens=True, weak=True, nbounds=16)
def setblock(env):
    E = env.E
    c = Comp(env)
    y, x, n, m = c.block()
    V = NP.symbolic("values", (n, m))
    old = c.cell()
    inb = And(y <= c.Y, c.Y < y + n, x <= c.X, c.X < x + m)
    goal = If(inb, V.at(c.Y - y, c.X - x), old)
    E.prove("bounds: rows", And(c.ys >= 0, c.ye <= c.nr))
    E.prove("bounds: columns", And(c.xs >= 0, c.xe <= c.nc))
    E.prove("bounds: cell", And(c.R >= 0, c.R < c.nr, c.C >= 0, c.C < c.nc))
    E.prove("bounds: cell in block", Implies(inb, And(c.ys <= c.R, c.R < c.ye, c.xs <= c.C, c.C < c.xe)))
    c.flat(c.R, c.C, c.R, c.C, c.nc)
    c.inside(c.R, c.C, c.nr, c.nc)
    c.inv({c.D.uid: ((c.c, c.a, c.b), goal), c.S.uid: ((c.c,), 1)})
    c.band.setblock(y, x, V)
    E.prove("every cell", c.cell() == goal)


@contract("karta.raster.band.CompressedBand.getblock, _getchunks: every cell of the window as the band holds it",
          abs_all=True, inline_gens=True, weak=True, nbounds=16)
def getblock(env):
    E = env.E
    c = Comp(env)
    y, x, n, m = c.block()
    E.assume(And(y <= c.Y, c.Y < y + n, x <= c.X, c.X < x + m))
    cell = c.cell()
    E.prove("bounds: rows", And(c.ys >= 0, c.ye <= c.nr))
    E.prove("bounds: columns", And(c.xs >= 0, c.xe <= c.nc))
    E.prove("bounds: cell", And(c.R >= 0, c.R < c.nr, c.C >= 0, c.C < c.nc))
    E.prove("bounds: cell in block", And(c.ys <= c.R, c.R < c.ye, c.xs <= c.C, c.C < c.xe))
    c.flat(c.R, c.C, c.R, c.C, c.nc)
    c.inside(c.R, c.C, c.nr, c.nc)
    c.inv({}, ((c.Y - y, c.X - x), cell))
    r = c.band.getblock(y, x, n, m)
    E.prove("shape", And(r.shape[0] == n, r.shape[1] == m))
    E.prove("the cell looked at", r.at(c.Y - y, c.X - x) == cell)
    E.prove("reading changes nothing", c.cell() == cell)


@contract("karta.raster.band.CompressedBand: a new band holds the initial value everywhere", weak=True)
def create(env):
    E = env.E
    cls = env.mod("karta.raster.band").CompressedBand
    H, W, ch, cw = [E.int(n, 1) for n in ("H", "W", "ch", "cw")]
    init = E.real("init")
    b = cls((H, W), float, chunksize=(ch, cw), initval=init)
    nr, nc = ceil(E, E.tofloat(H) / E.tofloat(ch)), ceil(E, E.tofloat(W) / E.tofloat(cw))
    k = E.int("k", 0)
    E.assume(k < nr * nc)
    E.prove("chunk counts", And(b.nchunkrows == nr, b.nchunkcols == nc, b.chunkstatus.shape[0] == nr * nc, len_(b._data) == nr * nc))
    E.prove("no chunk is set", b.chunkstatus.at(k) == 0)
    E.prove("initial value", And(b._initval == init, b.size[0] == H, b.size[1] == W, b._chunksize[0] == ch, b._chunksize[1] == cw))
    E.prove("states differ", b.CHUNKSET != b.CHUNKUNSET)


def len_(l):
    from vf.sseq import count
    return count(l) if not hasattr(l, "_itercount") else l._itercount()


@contract("karta.raster.band.SimpleBand: setblock and getblock")
def simple(env):
    E = env.E
    cls = env.mod("karta.raster.band").SimpleBand
    H, W = E.int("H", 1), E.int("W", 1)
    init = E.real("init")
    b = cls((H, W), "float64", initval=init)
    Y, X = E.int("Y", 0), E.int("X", 0)
    E.assume(And(Y < H, X < W))
    E.prove("initial value", b.getblock(0, 0, H, W).at(Y, X) == init)
    b._array = NP.symbolic("content", (H, W))
    y, x, n, m = [E.int(v, 0) for v in ("yoff", "xoff", "n", "m")]
    E.assume(And(y + n <= H, x + m <= W))
    V = NP.symbolic("values", (n, m))
    old = b._array.at(Y, X)
    inb = And(y <= Y, Y < y + n, x <= X, X < x + m)
    b.setblock(y, x, V)
    goal = If(inb, V.at(Y - y, X - x), old)
    y, x, n, m = [E.int(v, 0) for v in ("yoff2", "xoff2", "n2", "m2")]
    E.assume(And(y + n <= H, x + m <= W, y <= Y, Y < y + n, x <= X, X < x + m))
    r = b.getblock(y, x, n, m)
    E.prove("shape", And(r.shape[0] == n, r.shape[1] == m))
    E.prove("reads what was written last", r.at(Y - y, X - x) == goal)
