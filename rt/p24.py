"""P24: dateline-aware bounding boxes."""
import numpy as np
from core import *
from vg import *
from karta.crs import LonLatWGS84, SphericalEarth
from karta.vector.dateline import bbox as dbbox
from coordstring import CoordString


def gen(rng):
    n = rng.randint(1, 7)
    lon = rng.choice([rng.uniform(-180, 180), 175., -175., 0., 179.])
    lat = rng.uniform(-60, 60)
    V = []
    for _ in range(n):
        V.append([(lon + 180) % 360 - 180, lat])
        lon += rng.choice([rng.uniform(-15, 15), rng.uniform(-40, 40), 0])
        lat = max(-75, min(75, lat + rng.choice([rng.uniform(-10, 10), 0])))
    return {"v": V, "ring": rng.random() < .4, "rank": rng.choice([2, 2, 3]), "kind": rng.choice(["line", "poly", "mp"])}


def gc(a, b, t):
    """point at fraction t of the great circle arc a-b"""
    A, B = [np.array([math.cos(math.radians(p[1])) * math.cos(math.radians(p[0])), math.cos(math.radians(p[1])) * math.sin(math.radians(p[0])),
                      math.sin(math.radians(p[1]))]) for p in (a, b)]
    w = math.acos(max(-1., min(1., float(A.dot(B)))))
    if w < 1e-9:
        return a
    P = (A * math.sin((1 - t) * w) + B * math.sin(t * w)) / math.sin(w)
    return [math.degrees(math.atan2(P[1], P[0])), math.degrees(math.asin(max(-1., min(1., float(P[2])))))]


def inlon(x, lo, hi, tol):
    d = (hi - lo) % 360
    u = (x - lo) % 360
    return u <= d + tol or u >= 360 - tol


def check(c):
    V = c["v"]
    W = [v + [1.0] for v in V] if c["rank"] == 3 else V
    kind = c["kind"] if len(V) > 2 else ("line" if len(V) > 1 else "mp")
    if kind == "mp":
        g = Multipoint([tuple(v) for v in W], crs=LonLatWGS84)
        S = []
    elif kind == "poly":
        g = Polygon(W, crs=LonLatWGS84)
        S = segs(V, True)
    else:
        g = Line(W, crs=LonLatWGS84)
        S = segs(V, False)
    # the closing edge must be the short way round, and the whole must span less than half a turn
    u, lo, hi = 0.0, 0.0, 0.0
    x0 = V[0][0]
    for v in V[1:] + (V[:1] if kind == "poly" else []):
        u += (v[0] - x0 + 180) % 360 - 180
        x0 = v[0]
        lo, hi = min(lo, u), max(hi, u)
    if hi - lo > 179:
        raise Skip
    bb = g.bbox()
    ensure(len(bb) == 4 and all(not math.isnan(t) for t in bb), "bbox %s", bb)
    ensure(-180 <= bb[0] < 180 and -180 <= bb[2] < 180, "longitudes of %s", bb)
    for v in V:
        ensure(inlon(v[0], bb[0], bb[2], 1e-9) and bb[1] - 1e-9 <= v[1] <= bb[3] + 1e-9, "vertex %s is outside %s", v, bb)
    ensure(abs((bb[2] - bb[0]) % 360 - (hi - lo)) < 1e-6 or abs((bb[2] - bb[0]) % 360 - (hi - lo)) > 360 - 1e-6, "bbox %s spans %r degrees, vertices %r", bb, (bb[2] - bb[0]) % 360, hi - lo)
    ext = g.extent()
    ensure(tuple(ext) == (bb[0], bb[2], bb[1], bb[3]), "extent %s of bbox %s", ext, bb)
    for a, b in S:
        if abs((a[0] - b[0] + 180) % 360 - 180) > 175:
            continue
        for t in (.1, .25, .5, .75, .9):
            p = gc(a, b, t)
            ensure(bb[1] - 1e-6 <= p[1] <= bb[3] + 1e-6, "great circle %s - %s reaches latitude %r, bbox %s", a, b, p[1], bb)
    cross = any(abs(a[0] - b[0]) > 180 for a, b in S)
    if kind != "mp":
        ensure(bool(g.crosses_dateline()) == cross, "crosses_dateline is not %s", cross)


CLAUSES = [Clause("bbox", "the box has normalised longitudes, spans exactly the swept longitudes across the dateline, holds every vertex and the great circles between them",
                  gen, check, quick=6000, thorough=250000)]
