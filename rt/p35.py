"""P35: geodesics and areas on ellipsoids, against PROJ's geodesic library."""
import warnings
import pyproj
from core import *
from karta import geodesy as G
from karta.crs import LonLatWGS84, SphericalEarth, GeographicalCRS
from karta.vector import Polygon, Line, Point

ELL = [(6378137.0, 6356752.314245179), (6378206.4, 6356583.8), (6371000.0, 6371000.0 * (1 - 1 / 150.)), (1000.0, 997.5),
       (6378137.0, 6378137.0 * (1 - 1 / 1000.))]
LAT = 80.0
red = lambda d: (d + 180) % 360 - 180


def lat(rng):
    return rng.choice([rng.uniform(-LAT, LAT), rng.uniform(-LAT, LAT), rng.uniform(-LAT, LAT), 0.0, 30.0, -45.0])


def gen_i(rng):
    if rng.random() < .02:
        # where the computation is known to break down
        x, y = rng.uniform(-180, 180), rng.choice([rng.uniform(-.1, .1), rng.uniform(85, 90), -90.])
        k = rng.choice(["known", "known0"])
        if k == "known0":
            return {"e": rng.randrange(len(ELL)), "p": [x, 0.0], "q": [red(x + 180), 0.0], "kind": k}
        return {"e": rng.randrange(len(ELL)), "p": [x, y], "q": [red(x + rng.uniform(-100, 100)), y if abs(y) < 1 else rng.choice([-1, 1]) * y], "kind": k}
    k = rng.choice(["any", "near", "anti", "merid", "equator", "par", "opp"])
    x1, y1 = rng.choice([rng.uniform(-180, 180), 0., 179.5, -180.]), lat(rng)
    x2, y2 = rng.uniform(-180, 180), lat(rng)
    if k == "near":
        s = rng.choice([1., 1e-2])
        x2, y2 = x1 + rng.uniform(-s, s), y1 + rng.uniform(-s, s)
    elif k == "anti":
        x2, y2 = x1 + 180 + rng.uniform(-1, 1), -y1 + rng.uniform(-1, 1)
        if abs(y1) < 5:
            y1 += 20
    elif k == "merid":
        x2 = x1 + rng.choice([0, 0, 180])
        if x2 != x1 and abs(y1 + y2) < 3:
            y2 = y1
    elif k == "equator":
        y1 = y2 = 0.0
        x2 = x1 + rng.uniform(-170, 170)
    elif k == "par":
        y2 = y1
        x2 = x1 + rng.uniform(-150, 150)
    elif k == "opp":
        y2 = -y1
        x2 = x1 + rng.uniform(-150, 150)
    y1, y2 = max(-LAT, min(LAT, y1)), max(-LAT, min(LAT, y2))
    return {"e": rng.randrange(len(ELL)), "p": [red(x1), y1], "q": [red(x2), y2], "kind": k}


def near_antipodal(p, q):
    return abs(abs(red(q[0] - p[0])) - 180) < 2 and abs(p[1] + q[1]) < 2 and abs(p[1]) < 15


def check_i(c):
    a, b = ELL[c["e"]]
    p, q = c["p"], c["q"]
    if near_antipodal(p, q) and c["kind"] != "known0" or p == q:
        raise Skip()
    g = pyproj.Geod(a=a, b=b)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        az, baz, d = G.ellipsoidal_inverse(a, b, p[0], p[1], q[0], q[1])
    _, _, D = g.inv(p[0], p[1], q[0], q[1])
    tol = 2e-3 * a / 6.4e6
    f = 1 - b / a
    tol *= max(1.0, (f * 298) ** 6)      # the series are cut off at the sixth order of the flattening
    ensure(abs(d - D) <= tol, "distance %r, the shortest path is %r", d, D)
    x, y, bz = g.fwd(p[0], p[1], az, d)
    off = g.inv(x, y, q[0], q[1])[2]
    ensure(off <= 10 * tol or max(abs(p[1]), abs(q[1])) > LAT, "the azimuth %r leads %r past the point", az, off)
    if max(abs(p[1]), abs(q[1])) > LAT:
        return
    ensure(-180 <= az <= 180 and -180 <= baz <= 180, "azimuths %r %r", az, baz)
    if d > a * 1e-4 and abs(abs(y) - 90) > 5:
        ensure(abs(red(baz - bz)) < 1e-4, "back azimuth %r, expected %r", baz, bz)


def known_i(c):
    """the listed findings: a refusal or warning, not a wrong answer, save for antipodes on the equator"""
    a, b = ELL[c["e"]]
    p, q = c["p"], c["q"]
    if p[1] == q[1] == 0.0:
        return "equatorial-antipodes" if abs(abs(red(q[0] - p[0])) - 180) < 2 else None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            G.ellipsoidal_inverse(a, b, p[0], p[1], q[0], q[1])
    except (ZeroDivisionError, ValueError, RuntimeError, RuntimeWarning):
        if abs(p[1]) < .5 and abs(q[1]) < .5:
            return "no-convergence-near-equator"
        if abs(p[1]) > LAT or abs(q[1]) > LAT:
            return "no-convergence-near-pole"
    return None


def gen_f(rng):
    return {"e": rng.randrange(len(ELL)), "p": [rng.choice([rng.uniform(-180, 180), 0., 179.9]), lat(rng)],
            "az": rng.choice([rng.uniform(-180, 180), 0., 90., -90., 180., 45.]), "d": rng.choice([rng.uniform(0, 3), rng.uniform(0, .01), 0.0])}


def check_f(c):
    a, b = ELL[c["e"]]
    p, az, d = c["p"], c["az"], c["d"] * a
    g = pyproj.Geod(a=a, b=b)
    x, y, bz = g.fwd(p[0], p[1], az, d)
    if abs(y) > 89:
        raise Skip()
    X, Y, B = G.ellipsoidal_forward(a, b, p[0], p[1], az, d)
    tol = 2e-3 * a / 6.4e6 * max(1.0, ((1 - b / a) * 298) ** 6)
    off = g.inv(x, y, X, Y)[2]
    ensure(off <= tol, "arrives at %r, %r away from %r", (X, Y), off, (x, y))
    ensure(-180 <= X <= 180 and -180 <= B <= 180, "longitude %r, back azimuth %r", X, B)
    if d > 0 or True:
        ensure(abs(red(B - bz)) < 1e-6, "back azimuth %r, expected %r", B, bz)


def gen_a(rng):
    n = rng.randint(3, 7)
    cx, cy, r = rng.choice([0., 180., 170., -175., rng.uniform(-180, 180)]), rng.choice([0., rng.uniform(-60, 60)]), rng.choice([.5, 5., 19.])
    an = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
    v = [[red(cx + r * rng.uniform(.5, 1) * math.cos(t)), cy + r * rng.uniform(.5, 1) * math.sin(t)] for t in an]
    if rng.random() < .3:
        # an edge on the equator or on a meridian
        k = rng.randrange(n)
        if rng.random() < .5:
            v[k][1] = v[k - 1][1] = 0.0
        else:
            v[k][0] = v[k - 1][0]
    if rng.random() < .5:
        v = v[::-1]
    k = rng.randrange(n)
    return {"v": v[k:] + v[:k], "crs": rng.choice(["ell", "sph"]), "sub": rng.random() < .2}


def check_a(c):
    v = [tuple(p) for p in c["v"]]
    if len(set(v)) < len(v):
        raise Skip()
    crs = LonLatWGS84 if c["crs"] == "ell" else SphericalEarth
    g = pyproj.Geod(a=crs.ellipsoid.a, b=crs.ellipsoid.b)
    area = lambda w: abs(g.polygon_area_perimeter([p[0] for p in w], [p[1] for p in w])[0])
    A = area(v)
    subs = []
    if c["sub"]:
        x, y = v[0]
        s = [(red(x + .01), y), (red(x + .02), y + .01), (red(x + .01), y + .02)]
        subs = [Polygon(s, crs=crs)]
        A -= area(s)
    got = Polygon(v, crs=crs, subs=subs).area
    ensure(abs(got - A) <= 1e-7 * abs(A) + 100, "area %r, enclosed by the geodesics: %r", got, A)
    P = g.polygon_area_perimeter([p[0] for p in v], [p[1] for p in v])[1]
    ensure(close(Polygon(v, crs=crs).perimeter, P, 1e-9), "perimeter")
    L = sum(g.inv(p[0], p[1], q[0], q[1])[2] for p, q in zip(v, v[1:]))
    ensure(close(Line(v, crs=crs).length, L, 1e-9), "length")


CLAUSES = [
    Clause("inverse", "distance and azimuths between two points are those of the shortest geodesic", gen_i, check_i, quick=20000, thorough=400000, weight=1.5, known=known_i),
    Clause("forward", "walking along an azimuth arrives where the geodesic does", gen_f, check_f, quick=12000, thorough=200000),
    Clause("area", "areas, perimeters and lengths of geographical geometries, across the equator and the dateline", gen_a, check_a, quick=6000, thorough=100000),
]
