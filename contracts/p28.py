"""P28: masking by polygons."""
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If
from vf import npshim as NP
from contracts.rast import Grid

ASSUME = ["mask_by_poly is under contract for lists of up to three polygons, with the mask of a polygon by an assumed contract of mask_poly"]


class Poly(object):
    """a polygon by what is asked of it"""
    _geotype = "Polygon"

    def __init__(self, E, crs, k, clockwise):
        self.E, self.crs, self.cw = E, crs, clockwise
        self.x = [E.real("px%d_%d" % (k, i)) for i in range(3)]
        self.y = [E.real("py%d_%d" % (k, i)) for i in range(3)]

    def coords(self, crs=None):
        self.E.prove("in the coordinate system of the grid", crs is self.crs)
        return list(self.x), list(self.y)

    def isclockwise(self):
        return self.cw


class Multi(object):
    _geotype = "Multipolygon"

    def __init__(self, ps):
        self.ps = ps

    def __len__(self):
        return len(self.ps)

    def __getitem__(self, k):
        return self.ps[k]

    def __iter__(self):
        return iter(self.ps)


@contract("karta.raster.grid.RegularGrid.mask_by_poly: every band keeps the cells in the mask of some polygon and has nodata elsewhere; the grid is only changed in place")
def mask_by_poly(env):
    E = env.E
    G = Grid(env)
    form = E.choose(6)
    n = (1, 1, 2, 2, 3, 3)[form]
    ps = [Poly(E, G.g.crs, k, E.choose(2) == 1 if k == 0 else k == 1) for k in range(n)]
    arg = (lambda: ps[0], lambda: [ps[0]], lambda: list(ps), lambda: Multi(ps), lambda: [Multi(ps[:2]), ps[2]], lambda: [ps[0], (ps[1], Multi(ps[2:]))])[form]()
    masks = [NP.symbolic("mask%d" % k, (G.ny, G.nx), "bool") for k in range(n)]
    seen = []

    def mask_poly(x, y, nx, ny, T):
        same = lambda p, q: len(p) == len(q) and all(a is b for a, b in zip(p, q))
        for k, p in enumerate(ps):
            w = (lambda v: v) if p.cw else (lambda v: v[::-1])
            if same(list(x), w(p.x)) and same(list(y), w(p.y)):
                break
        else:
            E.prove("the polygon, its vertices clockwise", False)
        E.prove("for the cells of the grid", And(nx == G.nx, ny == G.ny, len(T) == 6, *[a == b for a, b in zip(T, G.T)]))
        seen.append(k)
        return masks[k].copy()
    G.m.mask_poly = mask_poly
    inplace = E.choose(2) == 1
    r = G.g.mask_by_poly(arg, inplace=inplace)
    E.prove("every polygon", sorted(set(seen)) == list(range(n)))
    G.structure(r)
    E.prove("same nodata", r.nodata == G.nod)
    inside = Or(*[m.at(G.I, G.J) for m in masks])
    E.prove("inside kept, outside nodata", G.now(r) == If(inside, G.old(), G.nod))
    if inplace:
        E.prove("in place", r is G.g)
    else:
        G.unchanged()
