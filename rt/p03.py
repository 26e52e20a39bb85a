"""P03: georeferencing: indices and world coordinates are inverse."""
import numpy as np
from core import *
from rg import *


def gen(rng):
    g = gen_grid(rng, holes=0, bands=(1,), dtypes=["float64"])
    pts = [[rng.randint(-40, 80) / 8.0, rng.randint(-40, 80) / 8.0] for _ in range(rng.randint(1, 5))]
    return {"g": g, "pos": pts, "s": [rng.choice([None, rng.randint(-9, 9)]) for _ in range(4)],
            "st": [rng.choice([None, 1, 2, -1, -2]), rng.choice([None, 1, 2, -1, -2])]}


def check(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx = a.shape[:2]
    ensure(tuple(g.transform) == tuple(float(t) for t in T), "transform")
    X, Y = g.center_coords()
    X2, Y2 = g.coordmesh()
    VX, VY = g.vertex_coords()
    cg = g.coordinates()
    CX, CY = cg[:, :]
    ensure(X.shape == Y.shape == (ny, nx), "center_coords shape %s", X.shape)
    ensure(VX.shape == VY.shape == (ny + 1, nx + 1), "vertex_coords shape %s", VX.shape)
    ensure(CX.shape == CY.shape == (ny, nx), "coordinates()[:,:] shape %s", CX.shape)
    for i in range(ny):
        for j in range(nx):
            ex, ey = centre(T, i, j)
            for nm, gx, gy in (("center_coords", X[i, j], Y[i, j]), ("coordmesh", X2[i, j], Y2[i, j]),
                               ("coordinates()[:,:]", CX[i, j], CY[i, j])):
                ensure(close(gx, ex) and close(gy, ey), "%s of cell (%d, %d): (%r, %r), expected (%r, %r)", nm, i, j,
                       float(gx), float(gy), ex, ey)
    for i in range(ny + 1):
        for j in range(nx + 1):
            ex, ey = centre(T, i - 0.5, j - 0.5)
            ensure(close(VX[i, j], ex) and close(VY[i, j], ey), "vertex (%d, %d): (%r, %r), expected (%r, %r)",
                   i, j, float(VX[i, j]), float(VY[i, j]), ex, ey)
    # single cells, rows, columns and slices of the generator
    i, j = c["g"]["seed"] % ny, (c["g"]["seed"] // 7) % nx
    x, y = cg[i, j]
    ex, ey = centre(T, i, j)
    ensure(close(x, ex) and close(y, ey), "coordinates()[%d, %d]", i, j)
    si = slice(c["s"][0], c["s"][1], c["st"][0])
    sj = slice(c["s"][2], c["s"][3], c["st"][1])
    for ki, kj in ((si, sj), (i, sj), (si, j)):
        x, y = cg[ki, kj]
        ex, ey = X[ki, kj], Y[ki, kj]
        ensure(np.shape(x) == np.shape(ex) and np.shape(y) == np.shape(ey), "coordinates()[%s, %s] has shape %s", ki, kj, np.shape(x))
        ensure(np.allclose(x, ex, 1e-9, 1e-9) and np.allclose(y, ey, 1e-9, 1e-9), "coordinates()[%s, %s]", ki, kj)
    xl, yl = g.center_llref()
    ex, ey = centre(T, 0, 0)
    ensure(close(xl, ex) and close(yl, ey), "center_llref")
    ensure(tuple(g.corner_llref()) == tuple(T[:2]) == tuple(g.origin), "corner_llref / origin")
    ensure(tuple(g.resolution) == tuple(T[2:4]) and tuple(g.skew) == tuple(T[4:]), "resolution / skew")
    # positions is the inverse
    P = c["pos"] + [[float(i), float(j)]]
    xs = [centre(T, p[0], p[1])[0] for p in P]
    ys = [centre(T, p[0], p[1])[1] for p in P]
    I, J = g.positions(xs, ys)
    ensure(len(I) == len(P) == len(J), "positions: %d values", len(I))
    for k, p in enumerate(P):
        ensure(close(I[k], p[0], 1e-7) and close(J[k], p[1], 1e-7), "positions of %s: (%r, %r)", p, float(I[k]), float(J[k]))
        i1, j1 = g.positions(xs[k], ys[k])
        ensure(close(i1, p[0], 1e-7) and close(j1, p[1], 1e-7), "scalar positions of %s: (%r, %r)", p, float(i1), float(j1))
    # indices: nearest centre; outside raises
    inside = [p for p in P if all(abs((v % 1) - 0.5) > 1e-6 for v in p)]
    for p in inside:
        x, y = centre(T, p[0], p[1])
        ri, rj = int(round(p[0])), int(round(p[1]))
        if 0 <= ri < ny and 0 <= rj < nx:
            i1, j1 = g.indices(x, y)
            ensure((int(i1), int(j1)) == (ri, rj), "indices of position %s: (%s, %s)", p, i1, j1)
            i1, j1 = g.indices([x, X[0, 0]], [y, Y[0, 0]])
            ensure(list(map(int, i1)) == [ri, 0] and list(map(int, j1)) == [rj, 0], "indices vector of %s", p)
        else:
            raises(IndexError, g.indices, x, y)
            raises(IndexError, g.indices, [X[0, 0], x], [Y[0, 0], y])


CLAUSES = [Clause("georef", "centres, vertices and coordinate generators follow the affine transform; positions and "
                  "indices invert it", gen, check, quick=3000, thorough=100000)]
