"""P04: extents and bounding boxes are the tight hull of the cells."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, tbool, const
from vf import npshim as NP
from contracts.rast import grid, size, world


def any_transform(E):
    return tuple(E.real(n) for n in ("x0", "y0", "dx", "dy", "sx", "sy"))


def hull(E, ny, nx, T, got, h):
    """got = (xmin, xmax, ymin, ymax) spans the centres (h = 0) or the corners (h = 1) of all cells, tightly"""
    a, b, c, d = got
    i, j = E.int("i", 0), E.int("j", 0)
    E.assume(And(i <= ny - 1 + h, j <= nx - 1 + h))
    o = 0.5 * h
    x, y = world(T, i - o, j - o)
    # products of a position and an increment between their ends
    for p, n in ((j, nx - 1 + h), (i, ny - 1 + h)):
        for s in T[2:]:
            E.add_lemma(p, n, s)
    E.prove("no column or corner beyond", And(a <= x, x <= b))
    E.prove("no row or corner beyond", And(c <= y, y <= d))
    cs = [world(T, p - o, q - o) for p in (0, ny - 1 + h) for q in (0, nx - 1 + h)]
    E.prove("tight", And(Or(*[a == p for p, q in cs]), Or(*[b == p for p, q in cs]), Or(*[c == q for p, q in cs]), Or(*[d == q for p, q in cs])))


def with_lemma(E):
    L = E.lemma("a product lies between its ends", 3, lambda p, n, s: Implies(And(0 <= p, p <= n), And(
        Implies(s >= 0, And(0 <= p * s, p * s <= n * s)), Implies(s <= 0, And(n * s <= p * s, p * s <= 0)))), sort="real")
    E.add_lemma = lambda p, n, s: L(E.tofloat(p), E.tofloat(n), s)


@contract("karta.raster.grid.RegularGrid.extent, bbox: the tight hull of the cell centres, or of the cell corners, for every transform and size")
def extent(env):
    E = env.E
    T = any_transform(E)
    ny, nx = size(env)
    with_lemma(E)
    g = grid(env, ny, nx, T)
    k = E.choose(4)
    if k == 0:
        hull(E, ny, nx, T, g.extent(), 0)
    elif k == 1:
        hull(E, ny, nx, T, g.extent(reference="center", crs=g.crs), 0)
    elif k == 2:
        hull(E, ny, nx, T, g.extent(reference="edge"), 1)
    else:
        a, c, b, d = g.bbox()
        hull(E, ny, nx, T, (a, b, c, d), 1)


@contract("karta.raster.grid.RegularGrid.extent: other references are refused")
def refuse(env):
    g = grid(env, 2, 3, any_transform(env.E))
    err = env.mod("karta.errors").GridError
    try:
        g.extent(reference="middle")
    except err:
        env.E.prove("refused", True)
        return
    env.E.prove("refused", False)


@contract("karta.raster.grid.RegularGrid.data_extent: the tight hull of the cells that hold data, for any grid of one or two bands",
          abs_all=True, sizes=(1, 2))
def data_extent(env):
    E = env.E
    E.opaque_invs = True
    T = any_transform(E)
    x0, y0, dx, dy, sx, sy = T
    ny, nx = env.n("ny", 1), env.n("nx", 1)
    edge = E.choose(2)
    nb = 1 + edge
    nod = E.real("nodata")
    band = env.mod("karta.raster.band").SimpleBand
    g_ = env.mod("karta.raster.grid")
    bands = [band((ny, nx), float) for b in range(nb)]
    vals = [NP.symbolic("cells%d" % b, (ny, nx)) for b in range(nb)]
    for b, v in zip(bands, vals):
        b._array = v
    g = g_.RegularGrid(T, bands=bands, nodata_value=nod)
    valid = lambda i, j: And(0 <= i, i < ny, 0 <= j, j < nx, *[v.at(i, j) != nod for v in vals])
    I, J = E.int("I"), E.int("J")
    wx, wy = lambda i, j: world(T, i, j)[0], lambda i, j: world(T, i, j)[1]
    # a coordinate of some valid cell: closed over the valid cells
    R, B = z3.RealSort(), z3.BoolSort()
    ax = [z3.Function(n, R, B) for n in ("attained_x", "attained_y")]
    at = lambda d, v: SBool(ax[d](term(v, True)))

    lem = E.lemma("equal factors give equal products", 3, lambda a, b, s: Implies(a == b, a * s == b * s), sort="real")
    L = lambda a, b, s: lem(E.tofloat(a), E.tofloat(b), s)

    def close(i, j, r):
        E.add(tbool(Implies(And(valid(i, j), r == wx(i, j)), at(0, r))))
        E.add(tbool(Implies(And(valid(i, j), r == wy(i, j)), at(1, r))))

    def inv(loop, lv, env_, k):
        if E.depth and getattr(loop, "inside", False):
            for s, _, _ in list(E.__dict__.get("sels", [])):
                if s.n != 1 or not z3.eq(z3.simplify(term(s.shape[0])), z3.simplify(term(nx))):
                    continue
                for w, r in zip(E.witness, E.extremes):
                    close(loop.k, s.pos(w)[0], r)
                # the number of the column looked at, if selected
                r = s.rank(J)
                E.instantiate(r)
                for d in (dx, sy):
                    L(s.pos(r)[0], J, d)
            for d in (dy, sx):
                L(loop.k, I, d)
        ext = [v for id_, v, e in lv if isinstance(e, float) and e in (float("inf"), float("-inf"))]
        yield "together", len(set(isinstance(v, SNum) for v in ext)) < 2
        for id_, v, e in lv:
            if isinstance(e, float) and e in (float("inf"), float("-inf")):
                for d, (w, nm) in enumerate(((wx, "x"), (wy, "y"))):
                    fin = isinstance(v, SNum)
                    below = Implies(And(valid(I, J), I < k), And(fin, v <= w(I, J)) if fin else False)
                    above = Implies(And(valid(I, J), I < k), And(fin, v >= w(I, J)) if fin else False)
                    yield ("hull", nm, id_), below if e > 0 else above
                    yield ("attained", nm, id_), at(d, v) if fin else True
    E.invs["hull"] = inv
    if edge:
        lx, by, rx, ty = g.data_bbox()
    else:
        lx, rx, by, ty = g.data_extent()
    h = (0.5 * (abs(dx) + abs(sx)), 0.5 * (abs(dy) + abs(sy))) if edge else (0, 0)
    fin = all(isinstance(v, SNum) for v in (lx, rx, by, ty))
    if not fin:
        E.prove("no extent only without data", Not(valid(I, J)))
        return
    E.prove("no column beyond", Implies(valid(I, J), And(lx + h[0] <= wx(I, J), wx(I, J) <= rx - h[0])))
    E.prove("no row beyond", Implies(valid(I, J), And(by + h[1] <= wy(I, J), wy(I, J) <= ty - h[1])))
    E.prove("tight", And(at(0, lx + h[0]), at(0, rx - h[0]), at(1, by + h[1]), at(1, ty - h[1])))
