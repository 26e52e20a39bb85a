"""P05: bilinear sampling."""
import numpy as np
from core import *
from rg import *
from karta.vector.geometry import Point, Multipoint


def gen(rng):
    g = gen_grid(rng, minn=2, maxn=7, holes=0)
    ny, nx = g["ny"], g["nx"]
    pos = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.7:
            pos.append([rng.randint(0, 8 * (ny - 1)) / 8.0, rng.randint(0, 8 * (nx - 1)) / 8.0])
        elif r < 0.85:
            pos.append([float(rng.randint(0, ny - 1)), float(rng.randint(0, nx - 1))])
        else:
            pos.append([rng.randint(-16, 8 * ny + 16) / 8.0, rng.randint(-16, 8 * nx + 16) / 8.0])
    return {"g": g, "pos": pos, "form": rng.choice(["scalar", "list", "array", "array2", "point", "multipoint"])}


def interp(z, i, j):
    i0 = min(int(math.floor(i)), z.shape[0] - 2)
    j0 = min(int(math.floor(j)), z.shape[1] - 2)
    u, v = i - i0, j - j0
    z = z.astype(float)
    return ((1 - u) * (1 - v) * z[i0, j0] + u * (1 - v) * z[i0 + 1, j0]
            + (1 - u) * v * z[i0, j0 + 1] + u * v * z[i0 + 1, j0 + 1])


def check(c):
    g, a = build(c["g"])
    T = c["g"]["T"]
    ny, nx, nb = a.shape
    # round-off in the inverse transform can move a position on the border of
    # the hull of centres to either side: only clear positions are judged there
    exact = (T[4] == T[5] == 0.0 and all(math.log(abs(t), 2) % 1 == 0 for t in T[2:4]))
    pos = c["pos"]
    if not exact:
        pos = [p for p in pos if all(abs(p[d] - e) > 1e-6 for d, n in ((0, ny), (1, nx)) for e in (0, n - 1))]
    if not pos:
        return False
    if c["form"] == "array2" and len(pos) % 2:
        pos = pos + pos[:1]
    xs = [centre(T, *p)[0] for p in pos]
    ys = [centre(T, *p)[1] for p in pos]
    exp = np.empty((nb, len(pos)))
    for k, (i, j) in enumerate(pos):
        for b in range(nb):
            if 0 <= i <= ny - 1 and 0 <= j <= nx - 1:
                exp[b, k] = interp(a[:, :, b], i, j)
            else:
                exp[b, k] = g.nodata
    f = c["form"]
    if f == "scalar":
        out = [g.sample_bilinear(x, y) for x, y in zip(xs, ys)]
        for o in out:
            ensure(np.shape(o) == (nb,), "scalar sample has shape %s, %d bands", np.shape(o), nb)
        got = np.array(out).T
        got2 = np.array([g.sample(x, y) for x, y in zip(xs, ys)]).T
    elif f == "list":
        got = g.sample_bilinear(xs, ys)
        got2 = g.sample(xs, ys, method="bilinear")
    elif f == "array":
        got = g.sample_bilinear(np.array(xs), np.array(ys))
        got2 = g.sample(np.array(xs), np.array(ys))
    elif f == "array2":
        n = len(pos) // 2
        got = g.sample_bilinear(np.array(xs).reshape(2, n), np.array(ys).reshape(2, n))
        ensure(got.shape == (nb, 2, n), "shape %s for a %s input and %d bands", got.shape, (2, n), nb)
        got = got.reshape(nb, 2 * n)
        got2 = got
    elif f == "point":
        got = np.array([g.sample(Point((x, y))) for x, y in zip(xs, ys)]).T
        got2 = got
    else:
        got = g.sample(Multipoint(list(zip(xs, ys))))
        got2 = got
    for o in (got, got2):
        ensure(o.shape == (nb, len(pos)), "result shape %s for %d positions and %d bands", o.shape, len(pos), nb)
        isint = a.dtype.kind in "iu"
        for b in range(nb):
            for k in range(len(pos)):
                e, v = exp[b, k], float(o[b, k])
                out = not (0 <= pos[k][0] <= ny - 1 and 0 <= pos[k][1] <= nx - 1)
                if isint and not out:
                    ok = abs(v - math.floor(e + 1e-9)) < 1e-6 or abs(v - math.floor(e - 1e-9)) < 1e-6
                elif out:
                    ok = eqv(v, float(g.nodata))
                else:
                    ok = close(v, e, 1e-9 if exact else 1e-6)
                ensure(ok, "band %d at row/column position %s (%s): %r, bilinear interpolant %r", b, pos[k], f, v, e)


CLAUSES = [Clause("bilinear", "inside the hull of the cell centres sampling returns the bilinear interpolant of the "
                  "four surrounding cells, for every band, dtype and argument form; outside it returns nodata",
                  gen, check, quick=4000, thorough=200000)]
