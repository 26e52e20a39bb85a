"""P10: terrain stencils."""
from vf.main import contract
from vf.sym import And, Or, Not, Implies, NaN, NAN
from vf import npshim as NP
from contracts.rast import *

ASSUME = ["result grids keep the values they are made of (P01 for compressed bands; simple bands stand for both)"]
NEAR = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]


class Case(object):
    def __init__(self, env, nb, nodata=True):
        E = self.E = env.E
        self.misc = env.mod("karta.raster.misc")
        g_ = env.mod("karta.raster.grid")
        band = env.mod("karta.raster.band").SimpleBand
        g_.BAND_CLASS_DEFAULT = band
        self.T = tuple(E.real(n) for n in ("x0", "y0", "dx", "dy")) + (0.0, 0.0)
        self.dx, self.dy = self.T[2:4]
        E.assume(And(self.dx != 0, self.dy != 0))
        self.ny, self.nx = E.int("ny", 3), E.int("nx", 3)
        self.nod = E.real("nodata") if nodata else NAN
        bands = [band((self.ny, self.nx), float) for b in range(nb)]
        self.vals = [NP.symbolic("cells%d" % b, (self.ny, self.nx)) for b in range(nb)]
        for b, v in zip(bands, self.vals):
            b._array = v
        self.g = g_.RegularGrid(self.T, bands=bands, nodata_value=self.nod)
        self.I, self.J = E.int("I", 0), E.int("J", 0)
        E.assume(And(self.I < self.ny, self.J < self.nx))
        self.inner = And(0 < self.I, self.I < self.ny - 1, 0 < self.J, self.J < self.nx - 1)

    def valid(self, a, b):
        return And(*[v.at(self.I + a, self.J + b) != self.nod for v in self.vals]) if self.nod is not NAN else True

    def all_valid(self, cells):
        return And(*[self.valid(*c) for c in cells])

    def horn(self, k):
        """the finite differences of the 3 by 3 neighbourhood (weights 1, 2, 1)"""
        d = lambda a, b: self.vals[k].at(self.I + a, self.J + b)
        gx = (d(-1, 1) + 2 * d(0, 1) + d(1, 1) - d(-1, -1) - 2 * d(0, -1) - d(1, -1)) / (8 * self.dx)
        gy = (d(1, -1) + 2 * d(1, 0) + d(1, 1) - d(-1, -1) - 2 * d(-1, 0) - d(-1, 1)) / (8 * self.dy)
        return gx, gy

    def structure(self, r):
        E = self.E
        E.prove("same structure", And(r.size[0] == self.ny, r.size[1] == self.nx, len(r.bands) == 1,
                                      *[a == b for a, b in zip(r.transform, self.T)]))
        E.prove("missing cells are NaN", isinstance(r.nodata, NaN) or r.nodata != r.nodata)

    def cell(self, r):
        return r[:, :, 0].at(self.I, self.J)


ROW = [c for c in NEAR if c[1] != 0]
COL = [c for c in NEAR if c[0] != 0]


def known(E, what, v, needed, inner, val):
    """v is missing exactly where a needed cell is, or on the border, and otherwise val()"""
    if isinstance(v, NaN):
        E.prove(what + ": missing only where a neighbour is, or on the border", Not(And(inner, needed)))
    else:
        E.prove(what + ": missing where a neighbour is, and on the border", And(inner, needed))
        E.prove(what + ": the formula", v == val())


@contract("karta.raster.misc.gradient: the finite differences of the neighbourhood in the grid's units; missing where a needed cell is and on the border")
def gradient(env):
    E = env.E
    nb = 1 + E.choose(2)
    C = Case(env, nb)
    k = E.choose(nb)
    r = C.misc.gradient(C.g, band=k)
    d = E.choose(2)
    C.structure(r[d])
    known(E, "xy"[d], C.cell(r[d]), C.all_valid(ROW if d == 0 else COL), C.inner, lambda: C.horn(k)[d])


@contract("karta.raster.misc.slope: the length of the gradient on every inner cell, missing where a neighbour is")
def slope(env):
    E = env.E
    C = Case(env, 1)
    r = C.misc.slope(C.g)
    C.structure(r)
    E.assume(C.inner)
    v = C.cell(r)
    if isinstance(v, NaN):
        E.prove("missing only where a neighbour is", Not(C.all_valid(NEAR)))
    else:
        E.prove("missing where a neighbour is", C.all_valid(NEAR))
        gx, gy = C.horn(0)
        # the gradient, through its own contract
        a, b = [C.cell(q) for q in C.misc.gradient(C.g)]
        E.assume(And(a == gx, b == gy))
        E.prove("the length of the gradient", And(v >= 0, v * v == a * a + b * b))


@contract("karta.raster.misc.aspect: the direction of steepest descent from the gradient, missing where a neighbour is and on the border")
def aspect(env):
    E = env.E
    C = Case(env, 1)
    r = C.misc.aspect(C.g)
    C.structure(r)
    gx, gy = C.horn(0)
    known(E, "aspect", C.cell(r), C.all_valid(NEAR), C.inner, lambda: NP.arctan2(gy, -gx))


@contract("karta.raster.misc.divergence: the sum of central differences of two bands, missing where a needed cell is and on the border")
def divergence(env):
    E = env.E
    C = Case(env, 2, nodata=E.choose(2) == 1)
    a = E.choose(2)
    r = C.misc.divergence(C.g, bands=(a, 1 - a))
    C.structure(r)
    u, v = C.vals[a], C.vals[1 - a]
    there = lambda w, *cells: And(*[w.at(C.I + i, C.J + j) != C.nod for i, j in cells]) if C.nod is not NAN else True
    known(E, "divergence", C.cell(r), And(there(u, (0, 1), (0, -1)), there(v, (1, 0), (-1, 0))), C.inner,
          lambda: (u.at(C.I, C.J + 1) - u.at(C.I, C.J - 1)) / (2 * C.dx) + (v.at(C.I + 1, C.J) - v.at(C.I - 1, C.J)) / (2 * C.dy))


@contract("karta.raster.misc: skewed grids are refused")
def skew(env):
    E = env.E
    f = ("slope", "aspect", "gradient", "divergence", "normed_potential_vectors", "hillshade")[E.choose(6)]
    m = env.mod("karta.raster.misc")
    T = transform(E)
    E.assume(Or(T[4] != 0, T[5] != 0))
    g = grid(env, E.int("ny", 3), E.int("nx", 3), T)
    try:
        getattr(m, f)(g)
    except NotImplementedError:
        E.prove("refused", True)
        return
    E.prove("refused", False)
