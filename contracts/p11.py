"""P11: missing cells are those that hold nodata."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, NaN, NAN, SNum, term
from vf import npshim as NP
from contracts.rast import *

ASSUME = ["the contracts are over grids of one or two bands (simple bands; P01 for compressed bands), and numbers as nodata; NaN is "
          "covered for grids all of whose cells are numbers and for masks"]


@contract("karta.raster.grid.RegularGrid.data_mask_full, data_mask: the cells that differ from nodata, in their band and in every band")
def mask(env):
    E = env.E
    G = Grid(env)
    f, m = G.g.data_mask_full, G.g.data_mask
    E.prove("shapes", And(f.shape[0] == G.ny, f.shape[1] == G.nx, f.shape[2] == G.nb, m.shape[0] == G.ny, m.shape[1] == G.nx))
    E.prove("by band", f.at(G.I, G.J, G.K) == G.has())
    E.prove("in every band", m.at(G.I, G.J) == And(*[G.has(k) for k in range(G.nb)]))
    G.unchanged()


@contract("karta.raster.grid.RegularGrid.data_mask_full, data_mask: NaN as nodata")
def mask_nan(env):
    E = env.E
    G = Grid(env, nod=NAN)
    miss = [E.choose(2) for k in range(G.nb)]
    for b, q, v in zip(G.bands, miss, G.vals):
        f = v.snapshot()
        # any cell may be missing; here the one looked at
        b._array = NP.FArr((G.ny, G.nx), (lambda *i: NAN) if q else f, "float64")
    f, m = G.g.data_mask_full, G.g.data_mask
    v, w = f.at(G.I, G.J, G.K), m.at(G.I, G.J)
    E.prove("by band", v if not miss[G.K] else Not(v))
    E.prove("in every band", w if not any(miss) else Not(w))


@contract("karta.raster.grid.RegularGrid.set_nodata_value: data cells stay, missing ones move")
def set_nodata(env):
    E = env.E
    G = Grid(env)
    new = E.real("new")
    r = G.g.set_nodata_value(new)
    E.prove("every cell", G.now() == If(G.has(), G.old(), new))
    E.prove("returns the grid", r is G.g)
    E.prove("nodata", And(r.nodata == new, r.nodata_value == new))
    G.structure(r)


def func(E):
    """an arbitrary function of numbers, applied to each"""
    F = z3.Function("F", z3.RealSort(), z3.RealSort())
    one = lambda v: SNum(F(term(v, True)))
    return one, lambda a: NP.ew(one, a, dt="float64")


@contract("karta.raster.grid.Grid.apply: the function of every data cell; missing cells stay", abs_all=True, sizes=(1, 2))
def apply(env):
    E = env.E
    G = Grid(env)
    one, many = func(E)
    inplace = bool(E.choose(2))
    r = G.g.apply(many, inplace=inplace)
    # the number of the cell among those selected
    for s, _, _ in list(E.__dict__.get("sels", [])):
        s.rank(G.I, G.J, G.K) if s.n == 3 else s.rank(G.I, G.J)
    E.prove("every cell", G.now(r) == If(G.has(), one(G.old()), G.old()))
    G.structure(r)
    E.prove("nodata", r.nodata == G.nod)
    if inplace:
        E.prove("in place", r is G.g)
    else:
        E.prove("a new grid", r is not G.g)
        G.unchanged()


def arith(name, op):
    @contract("karta.raster.grid.RegularGrid.%s: cell by cell, nodata where either is missing" % name, abs_all=True, sizes=(1, 2))
    def con(env):
        E = env.E
        G = Grid(env)
        H = Grid(env, "2", like=G)
        r = getattr(G.g, name)(H.g)
        for s, _, _ in list(E.__dict__.get("sels", [])):
            s.rank(G.I, G.J, G.K) if s.n == 3 else s.rank(G.I, G.J)
        E.prove("every cell", G.now(r) == If(And(G.has(), H.has()), op(G.old(), H.old()), G.nod))
        G.structure(r)
        E.prove("nodata", r.nodata == G.nod)
        G.unchanged()
        H.unchanged()


arith("__add__", lambda a, b: a + b)
arith("__sub__", lambda a, b: a - b)


@contract("karta.raster.grid.RegularGrid.__add__, __sub__: grids of another transform or size are refused")
def refused(env):
    E = env.E
    G = Grid(env, nb=1)
    T = list(G.T)
    ny, nx = G.ny, G.nx
    k = E.choose(8)
    d = E.real("d") if k < 6 else E.int("dn", 1)
    E.assume(d != 0)
    if k < 6:
        T[k] = T[k] + d
    elif k == 6:
        ny = ny + d
    else:
        nx = nx + d
    H = grid(env, ny, nx, tuple(T))
    try:
        G.g + H if E.choose(2) else G.g - H
    except ValueError:
        E.prove("refused", True)
        return
    E.prove("refused", False)


def extremes(name):
    @contract("karta.raster.grid.Grid.%s: bounds of the data cells, attained; NaN without data" % name, abs_all=True, sizes=(1, 2))
    def con(env):
        E = env.E
        G = Grid(env)
        full = name == "minmax"
        r = getattr(G.g, name)()
        lo, hi = r if full else ((r, None) if name == "min" else (None, r))
        ok = G.has() if full else And(*[G.has(k) for k in range(G.nb)])
        sels = [s for s, _, _ in E.__dict__.get("sels", [])]
        for s in sels:
            E.instantiate(s.rank(G.I, G.J, G.K) if s.n == 3 else s.rank(G.I, G.J))
        v = [x for x in (lo, hi) if x is not None]
        if any(isinstance(x, (NaN, float)) for x in v):
            E.prove("no extremes only without data", Not(ok))
            return
        if lo is not None:
            E.prove("no data cell is less", Implies(ok, lo <= G.old()))
        if hi is not None:
            E.prove("no data cell is greater", Implies(ok, hi >= G.old()))
        value = lambda k, c: G.vals[k].at(*c)
        if env.size is None:
            cells = [s.pos(w) for w in E.witness for s in sels]
        else:
            cells = [(i, j, k) for i in range(G.ny) for j in range(G.nx) for k in range(G.nb)]
        for x in v:
            some = []
            for c in cells:
                for k in range(G.nb):
                    data = And(c[2] == k, value(k, c[:2]) != G.nod) if full else And(*[value(b, c) != G.nod for b in range(G.nb)])
                    some.append(And(0 <= c[0], c[0] < G.ny, 0 <= c[1], c[1] < G.nx, data, x == value(k, c[:2])))
            E.prove("the value of a data cell", Or(*some))
    return con


extremes("minmax")
extremes("min")
extremes("max")
