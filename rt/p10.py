"""P10: terrain stencils."""
import numpy as np
from core import *
from rg import *
from karta.raster import misc


def gen(rng):
    g = gen_grid(rng, minn=3, maxn=7, skew=False, dtypes=["float64", "float32", "int16", "int32"],
                 bands=(1, 1, 2, 3), holes=rng.choice([0, 0, 0.05, 0.2]))
    return {"g": g, "band": rng.randint(0, g["nb"] - 1)}


def horn(D, i, j, dx, dyy):
    gx = ((2 * D[i, j + 1] + D[i - 1, j + 1] + D[i + 1, j + 1]) - (2 * D[i, j - 1] + D[i - 1, j - 1] + D[i + 1, j - 1])) / (8 * dx)
    gy = ((2 * D[i + 1, j] + D[i + 1, j + 1] + D[i + 1, j - 1]) - (2 * D[i - 1, j] + D[i - 1, j - 1] + D[i - 1, j + 1])) / (8 * dyy)
    return gx, gy


def near(a, b, tol=2e-5):
    return (a != a and b != b) or abs(a - b) <= tol * max(1, abs(a), abs(b))


def check(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    dx, dyy = T[2:4]
    ny, nx, nb = a.shape
    ok = valid(a, g.nodata).all(axis=-1)
    D = np.where(ok, a[:, :, c["band"]].astype(float), np.nan)
    gx, gy = misc.gradient(g, band=c["band"])
    s = misc.slope(g, band=c["band"])
    p = misc.aspect(g, band=c["band"])
    for q in (gx, gy, s, p):
        ensure(tuple(q.size) == (ny, nx) and tuple(q.transform) == tuple(T) and q.nbands == 1, "structure of the result")
    GX, GY, S, P = gx[:, :, 0], gy[:, :, 0], s[:, :, 0], p[:, :, 0]
    for i in range(ny):
        for j in range(nx):
            if 0 < i < ny - 1 and 0 < j < nx - 1:
                ex, ey = horn(D, i, j, dx, dyy)
                ensure(near(GX[i, j], ex) and near(GY[i, j], ey), "gradient at (%d, %d): (%r, %r), expected (%r, %r)", i, j,
                       float(GX[i, j]), float(GY[i, j]), ex, ey)
                ensure(near(S[i, j], math.sqrt(ex * ex + ey * ey) if ex == ex and ey == ey else float("nan")), "slope at (%d, %d): %r", i, j, float(S[i, j]))
                if not (abs(ex) < 1e-6 and abs(ey) < 1e-6):
                    e = math.atan2(ey, -ex)
                    d = abs(P[i, j] - e)
                    ensure((P[i, j] != P[i, j] and e != e) or d < 1e-4 or abs(d - 2 * math.pi) < 1e-4,
                           "aspect at (%d, %d): %r, expected %r", i, j, float(P[i, j]), e)
            else:
                ensure(GX[i, j] != GX[i, j] and GY[i, j] != GY[i, j] and P[i, j] != P[i, j], "border cell (%d, %d)", i, j)
    ensure(same(g[:, :, :], a), "the input grid changed")


def gen_div(rng):
    g = gen_grid(rng, minn=3, maxn=7, skew=False, bands=(2, 3))
    b = rng.sample(range(g["nb"]), 2)
    return {"g": g, "b": b, "default": rng.random() < 0.3}


def check_div(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    b = [0, 1] if c["default"] else c["b"]
    d = misc.divergence(g) if c["default"] else misc.divergence(g, bands=tuple(b))
    v = d[:, :, 0]
    ensure(tuple(d.transform) == tuple(T) and v.shape == (ny, nx), "structure")
    A = a.astype(float)
    A[~valid(a, g.nodata)] = np.nan
    for i in range(ny):
        for j in range(nx):
            if 0 < i < ny - 1 and 0 < j < nx - 1:
                e = (A[i, j + 1, b[0]] - A[i, j - 1, b[0]]) / (2 * T[2]) + (A[i + 1, j, b[1]] - A[i - 1, j, b[1]]) / (2 * T[3])
                ensure(near(v[i, j], e), "divergence at (%d, %d): %r, expected %r", i, j, float(v[i, j]), e)
            else:
                ensure(v[i, j] != v[i, j], "border cell (%d, %d)", i, j)


def gen_npv(rng):
    return gen(rng)


def check_npv(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ok = valid(a, g.nodata).all(axis=-1)
    D = np.where(ok, a[:, :, c["band"]].astype(float), np.nan)
    ny, nx = D.shape
    G = {}
    for i in range(1, ny - 1):
        for j in range(1, nx - 1):
            G[i, j] = horn(D, i, j, T[2], T[3])
    M = max([math.hypot(*v) for v in G.values() if v[0] == v[0] and v[1] == v[1]] or [0])
    if M == 0:
        return False
    u, v = misc.normed_potential_vectors(g, band=c["band"])
    U, V = u[:, :, 0], v[:, :, 0]
    for (i, j), (ex, ey) in G.items():
        ensure(near(U[i, j], ex / M) and near(V[i, j], ey / M), "vector at (%d, %d): (%r, %r), expected (%r, %r)", i, j,
               float(U[i, j]), float(V[i, j]), ex / M, ey / M)
    h = misc.hillshade(g, band=c["band"])
    ensure(tuple(h.size) == (ny, nx) and tuple(h.transform) == tuple(T), "hillshade structure")


def gen_skew(rng):
    g = gen_grid(rng, minn=3, maxn=5, dtypes=["float64"], bands=(2,), holes=0)
    g["T"][4:] = rng.choice([[0.5, 0.0], [0.0, 0.125], [0.25, 0.125]])
    return {"g": g, "f": rng.choice(["slope", "aspect", "gradient", "divergence", "normed_potential_vectors", "hillshade"])}


def check_skew(c):
    g, a = build(c["g"])
    raises(NotImplementedError, getattr(misc, c["f"]), g)


CLAUSES = [
    Clause("gradient", "gradient, slope and aspect follow the 3x3 neighbourhood formula in the grid's units on every "
           "interior cell, NaN where a neighbour is missing", gen, check, quick=1200, thorough=40000, weight=3),
    Clause("divergence", "divergence is the sum of central differences", gen_div, check_div, quick=600, thorough=20000),
    Clause("vectors", "normalised potential vectors are the gradient over its largest magnitude", gen_npv, check_npv,
           quick=300, thorough=10000),
    Clause("skew", "skewed grids are refused", gen_skew, check_skew, quick=60, thorough=500),
]
