"""P09: gridpoints."""
import numpy as np
from core import *
from rg import *
from karta.raster.grid import gridpoints
from karta.crs import Cartesian


def gen(rng):
    T = gen_transform(rng, skew=False, neg=False)
    n = rng.choice([1, 1, 2, 5, 12, 30])
    m = rng.randint(1, 6)
    pts = [[rng.randint(0, m - 1), rng.randint(0, m - 1), rng.randint(1, 15) / 16.0, rng.randint(1, 15) / 16.0, rng.randint(0, 800) / 8.0]
           for _ in range(n)]
    return {"T": T, "pts": pts, "int": rng.random() < 0.3, "kind": rng.choice(["list", "array"])}


def check(c):
    T = c["T"]
    conv = list if c["kind"] == "list" else np.array
    x = conv([T[0] + (p[1] + p[3]) * T[2] for p in c["pts"]])
    y = conv([T[1] + (p[0] + p[2]) * T[3] for p in c["pts"]])
    z = [int(p[4]) if c["int"] else p[4] for p in c["pts"]]
    cells = {}
    for p, zz in zip(c["pts"], z):
        cells.setdefault((p[0], p[1]), []).append(zz)
    g = gridpoints(x, y, conv(z), T, Cartesian)
    ny = max(p[0] for p in c["pts"]) + 1
    nx = max(p[1] for p in c["pts"]) + 1
    ensure(tuple(g.size) == (ny, nx), "size %s, points span %s", g.size, (ny, nx))
    ensure(tuple(g.transform) == tuple(T), "transform")
    v = g[:, :, 0]
    for i in range(ny):
        for j in range(nx):
            if (i, j) in cells:
                e = sum(cells[i, j]) / float(len(cells[i, j]))
                ensure(close(float(v[i, j]), e), "cell (%d, %d): %r, mean of its points %r", i, j, float(v[i, j]), e)
            else:
                ensure(np.isnan(v[i, j]), "cell (%d, %d) has no point but holds %r", i, j, float(v[i, j]))


def gen_out(rng):
    c = gen(rng)
    c["side"] = rng.choice(["left", "below"])
    return c


def check_out(c):
    T = c["T"]
    x = [T[0] + (p[1] + p[3]) * T[2] for p in c["pts"]] + [T[0] - (0.75 * T[2] if c["side"] == "left" else -0.5 * T[2])]
    y = [T[1] + (p[0] + p[2]) * T[3] for p in c["pts"]] + [T[1] - (0.75 * T[3] if c["side"] == "below" else -0.5 * T[3])]
    z = [p[4] for p in c["pts"]] + [1.0]
    raises(IndexError, gridpoints, x, y, z, T, Cartesian)


CLAUSES = [Clause("mean", "each cell is the mean of the points inside it, NaN without any; the grid just covers the points",
                  gen, check, quick=2000, thorough=80000, weight=3),
           Clause("outside", "points beyond the origin edges raise IndexError", gen_out, check_out, quick=200, thorough=3000)]
