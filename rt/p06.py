"""P06: nearest sampling, resampling and profiles."""
import numpy as np
from core import *
from rg import *
from karta.vector.geometry import Point, Multipoint, Line


def gen(rng):
    g = gen_grid(rng, maxn=7, holes=0)
    ny, nx = g["ny"], g["nx"]
    pos = []
    while len(pos) < rng.randint(1, 6):
        if rng.random() < 0.75:
            p = [rng.randint(-3, 8 * (ny - 1) + 3) / 8.0, rng.randint(-3, 8 * (nx - 1) + 3) / 8.0]
        else:
            p = [rng.randint(-24, 8 * ny + 16) / 8.0, rng.randint(-24, 8 * nx + 16) / 8.0]
        if all(abs(v % 1 - 0.5) > 0.01 for v in p):
            pos.append(p)
    return {"g": g, "pos": pos, "form": rng.choice(["scalar", "list", "array", "array2", "point", "multipoint"])}


def check(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    pos = c["pos"]
    f = c["form"]
    if f == "array2" and len(pos) % 2:
        pos = pos + pos[:1]
    xs = [centre(T, *p)[0] for p in pos]
    ys = [centre(T, *p)[1] for p in pos]

    def expd(k):
        i, j = int(round(pos[k][0])), int(round(pos[k][1]))
        return a[i, j, :] if (0 <= i < ny and 0 <= j < nx) else None

    if f in ("scalar", "point"):
        for k in range(len(pos)):
            v = g.sample_nearest(xs[k], ys[k]) if f == "scalar" else g.sample(Point((xs[k], ys[k])), method="nearest")
            e = expd(k)
            if e is None:
                ensure(np.all([eqv(float(q), float(g.nodata)) for q in np.atleast_1d(v)]), "outside: %s", v)
            else:
                ensure(np.shape(v) == (nb,) and same(v, e), "at position %s: %s, cell holds %s", pos[k], v, e)
        return
    if f == "list":
        got = g.sample_nearest(xs, ys)
    elif f == "array":
        got = g.sample(np.array(xs), np.array(ys), method="nearest")
    elif f == "array2":
        n = len(pos) // 2
        got = g.sample_nearest(np.array(xs).reshape(2, n), np.array(ys).reshape(2, n))
        ensure(got.shape == (nb, 2, n), "shape %s", got.shape)
        got = got.reshape(nb, 2 * n)
    else:
        got = g.sample(Multipoint(list(zip(xs, ys))), method="nearest")
    ensure(got.shape == (nb, len(pos)), "result shape %s for %d positions and %d bands", got.shape, len(pos), nb)
    for k in range(len(pos)):
        e = expd(k)
        for b in range(nb):
            x = float(g.nodata) if e is None else float(e[b])
            ensure(eqv(float(got[b, k]), x), "band %d at row/column position %s (%s): %r, expected %r", b, pos[k], f,
                   float(got[b, k]), x)


def gen_rs(rng):
    g = gen_grid(rng, maxn=7, minn=2, holes=0, skew=False, neg=False, dtypes=["float64", "float32", "int32"])
    return {"g": g, "dx": rng.choice([0.25, 0.5, 1, 2, 0.75, 4]), "dy": rng.choice([0.25, 0.5, 1, 2, 0.75, 4])}


def check_rs(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    r = g.resample(c["dx"], c["dy"], method="nearest")
    ensure(r.nbands == nb and tuple(r.resolution) == (c["dx"], c["dy"]), "resolution %s, bands %d", r.resolution, r.nbands)
    x0, y0 = r.center_llref()
    e0 = centre(T, 0, 0)
    ensure(close(x0, e0[0]) and close(y0, e0[1]), "first centre moved from %s to %s", e0, (x0, y0))
    # up to rounding where the extent is a whole number of steps
    num = lambda n, res, d: [int(math.floor((n - 1) * res / d + e)) + 1 for e in (-1e-9, 1e-9)]
    ensure(r.size[0] in num(ny, T[3], c["dy"]) and r.size[1] in num(nx, T[2], c["dx"]), "size %s", r.size)
    out = r[:, :, :]
    for i in range(r.size[0]):
        for j in range(r.size[1]):
            p, q = i * c["dy"] / T[3], j * c["dx"] / T[2]
            if abs(p % 1 - 0.5) < 1e-6 or abs(q % 1 - 0.5) < 1e-6:
                continue
            e = a[int(round(p)), int(round(q)), :]
            ensure(same(out[i, j, :], e), "cell (%d, %d): %s, nearest source cell holds %s", i, j, out[i, j, :], e)


def gen_al(rng):
    g = gen_grid(rng, maxn=6, minn=1, holes=0, skew=False, dtypes=["float64", "int32"])
    return {"g": g, "x": rng.choice([0.25, 0.5, 1, 2, 3, 5]), "y": rng.choice([0.25, 0.5, 1, 2, 3, 5]), "off": [rng.randint(-64, 64) / 16. for _ in range(2)]}


def check_al(c):
    T = list(c["g"]["T"])
    T[0] += c["off"][0]
    T[1] += c["off"][1]
    g, a = build(dict(c["g"], T=T))
    ny, nx, nb = a.shape
    r = g._align_origin(c["x"], c["y"])
    t = list(r.transform)
    ensure(close(t[2], T[2]) and close(t[3], T[3]) and t[4] == T[4] and t[5] == T[5], "transform %s", t)
    for d, s in ((0, c["x"]), (1, c["y"])):
        ensure(close(t[d] / s, round(t[d] / s)), "origin %r is no multiple of %r", t[d], s)
        ensure(abs(t[d] - T[d]) <= 0.5 * s + 1e-9, "origin moved from %r to %r, by more than half a step of %r", T[d], t[d], s)
    ensure(tuple(r.size) == (ny, nx) and r.nbands == nb, "size %s", r.size)
    out = r[:, :, :]
    for i in range(ny):
        for j in range(nx):
            p, q = i + (t[1] - T[1]) / T[3], j + (t[0] - T[0]) / T[2]
            if abs(p % 1 - 0.5) < 1e-6 or abs(q % 1 - 0.5) < 1e-6:
                continue
            p, q = int(round(p)), int(round(q))
            if 0 <= p < ny and 0 <= q < nx:
                ensure(same(out[i, j, :], a[p, q, :]), "cell (%d, %d): %s, nearest source cell holds %s", i, j, out[i, j, :], a[p, q, :])
            else:
                ensure(np.all([eqv(float(v), float(g.nodata)) for v in out[i, j, :]]), "cell (%d, %d) outside the grid: %s", i, j, out[i, j, :])


def gen_pf(rng):
    g = gen_grid(rng, maxn=7, minn=3, holes=0, dtypes=["float64"])
    return {"g": g, "a": [rng.random(), rng.random()], "b": [rng.random(), rng.random()], "n": rng.randint(1, 9), "step": rng.random() < .7}


def check_pf(c):
    g, a = build(c["g"])
    xmin, xmax, ymin, ymax = g.extent()
    p = [(xmin + u * (xmax - xmin), ymin + v * (ymax - ymin)) for u, v in (c["a"], c["b"])]
    L = math.hypot(p[1][0] - p[0][0], p[1][1] - p[0][1])
    if L < 1e-3:
        return False
    T = c["g"]["T"]
    # the spacing asked for, or the shorter step from one cell to the next
    d = L / (c["n"] + 0.5) if c.get("step", True) else min(math.hypot(T[2], T[5]), math.hypot(T[3], T[4]))
    if L / d > 500 or abs(L / d - round(L / d)) < 1e-6:
        return False
    pts, z = g.profile(Line(p), resolution=d) if c.get("step", True) else g.profile(Line(p))
    n = len(pts)
    ensure(n == int(L / d) + 1 and z.shape == (g.nbands, n), "%d points, values of shape %s", n, z.shape)
    xy = pts.coords()
    for k in range(n):
        t = k * d / L
        ensure(math.hypot(xy[0][k] - p[0][0] - t * (p[1][0] - p[0][0]), xy[1][k] - p[0][1] - t * (p[1][1] - p[0][1])) < 1e-6 * (1 + L), "point %d of the profile at %s", k, (xy[0][k], xy[1][k]))
        e = g.sample_bilinear(float(xy[0][k]), float(xy[1][k]))
        ensure(np.allclose(e, z[:, k], 1e-6, 1e-6, equal_nan=True), "profile value %d", k)
    for b in range(g.nbands):
        ensure(np.allclose(list(pts.d["band_%d" % b]), z[b], equal_nan=True), "data field band_%d", b)


CLAUSES = [
    Clause("nearest", "nearest sampling returns every band of the cell whose centre is nearest, nodata outside", gen,
           check, quick=4000, thorough=200000, weight=3),
    Clause("resample", "resample keeps the first cell centre and takes the nearest source value", gen_rs, check_rs,
           quick=500, thorough=20000),
    Clause("align", "aligning the origin moves it to the nearest multiple of a step and takes the nearest source value", gen_al, check_al,
           quick=500, thorough=20000),
    Clause("profile", "profile returns the samples at the points it reports", gen_pf, check_pf, quick=200, thorough=6000),
]
