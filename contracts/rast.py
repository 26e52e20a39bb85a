"""Grids and stacks of bands for the contracts on rasters."""
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP


class Stack(object):
    """any number of bands of one size, by the contract of getblock and setblock (P01)"""
    def __init__(self, env, nb=None):
        E = self.E = env.E
        self.H, self.W = E.int("H", 1), E.int("W", 1)
        self.B = env.n("B", 1) if nb is None else nb
        self.A = NP.symbolic("cells", (self.H, self.W, self.B))
        self.dtype = NP.dtype("float64")
        self.Y, self.X, self.Z = E.int("Y", 0), E.int("X", 0), E.int("Z", 0)    # the cell looked at
        E.assume(And(self.Y < self.H, self.X < self.W, self.Z < self.B))

    def _len(self):
        return self.B

    def __len__(self):
        return const(self.B)

    def _itercount(self):
        return self.B

    def item(self, k):
        return StubBand(self, k)

    def __getitem__(self, k):
        self.E.prove("the band exists", And(0 <= k, k < self.B))
        return self.item(k)

    def __iter__(self):
        for k in range(len(self)):
            yield self.item(k)

    def cell(self):
        return self.A.at(self.Y, self.X, self.Z)


class StubBand(object):
    def __init__(self, st, k):
        self.st, self.k = st, k
        self.size, self.dtype = (st.H, st.W), st.dtype
        self._loop_safe = lambda: True

    def pre(self, y, x, n, m):
        st = self.st
        st.E.prove("the block lies in the band", And(0 <= y, 0 <= x, 0 <= n, 0 <= m, y + n <= st.H, x + m <= st.W))

    def getblock(self, y, x, n, m):
        self.pre(y, x, n, m)
        return self.st.A[y:y + n, x:x + m, self.k].copy()

    def setblock(self, y, x, v):
        self.pre(y, x, v.shape[0], v.shape[1])
        self.st.A[y:y + v.shape[0], x:x + v.shape[1], self.k] = v


def transform(E):
    """an invertible transform"""
    T = tuple(E.real(n) for n in ("x0", "y0", "dx", "dy", "sx", "sy"))
    x0, y0, dx, dy, sx, sy = T
    E.assume(dx * dy - sx * sy != 0)
    return T


def world(T, i, j):
    """the point at row position i and column position j (cell centres at whole numbers)"""
    x0, y0, dx, dy, sx, sy = T
    h = 0.5
    return x0 + (j + h) * dx + (i + h) * sx, y0 + (i + h) * dy + (j + h) * sy


def grid(env, ny, nx, T, **kw):
    g = env.mod("karta.raster.grid")
    b = env.mod("karta.raster.band").SimpleBand((ny, nx), float)
    return g.RegularGrid(T, bands=[b], **kw)


def size(env):
    E = env.E
    return E.int("ny", 1), E.int("nx", 1)


class Grid(object):
    """a grid of any size, one or two bands"""
    def __init__(self, env, tag="", nb=None, like=None, nod=None):
        E = self.E = env.E
        g_ = self.m = env.mod("karta.raster.grid")
        band = env.mod("karta.raster.band").SimpleBand
        g_.BAND_CLASS_DEFAULT = band
        if like is None:
            self.T = tuple(E.real(n) for n in ("x0", "y0", "dx", "dy", "sx", "sy"))
            self.ny, self.nx = env.n("ny", 1), env.n("nx", 1)
            self.nb = nb or 1 + E.choose(2)
            self.I, self.J = E.int("I", 0), E.int("J", 0)
            E.assume(And(self.I < self.ny, self.J < self.nx))
            self.K = E.choose(self.nb)
        else:
            for n in ("T", "ny", "nx", "nb", "I", "J", "K"):
                setattr(self, n, getattr(like, n))
        self.nod = E.real("nodata" + tag) if nod is None else nod
        self.vals = [NP.symbolic("cells%s%d" % (tag, b), (self.ny, self.nx)) for b in range(self.nb)]
        bands = [band((self.ny, self.nx), float) for b in range(self.nb)]
        for b, v in zip(bands, self.vals):
            b._array = v.copy()
        self.bands = bands
        self.g = g_.RegularGrid(self.T, bands=bands, nodata_value=self.nod)
        # cells that change only where the loop over bands has come by
        E.skolem = (self.I, self.J)

    def old(self, k=None):
        return self.vals[self.K if k is None else k].at(self.I, self.J)

    def now(self, g=None, k=None):
        g = g or self.g
        return g.bands[self.K if k is None else k].getblock(0, 0, self.ny, self.nx).at(self.I, self.J)

    def has(self, k=None):
        return self.old(k) != self.nod

    def unchanged(self):
        self.E.prove("the grid is unchanged", And(*[self.now(k=k) == self.old(k) for k in range(self.nb)]))

    def structure(self, r):
        E = self.E
        E.prove("structure", And(r.size[0] == self.ny, r.size[1] == self.nx, len(r.bands) == self.nb, *[a == b for a, b in zip(r.transform, self.T)]))
