"""P21: planar distance, azimuth, walking."""
import numpy as np
from core import *
from vg import *
from karta.crs import Cartesian, CartesianCRS
from karta import geodesy


def gen(rng):
    q = gen_pts(rng, 2, 2, -9, 9, rng.choice([0, 4]))
    r = rng.random()
    if r < .1:
        q[1] = list(q[0])
    elif r < .25:
        q[1] = [q[0][0], q[1][1]]
    elif r < .4:
        q[1] = [q[1][0], q[0][1]]
    return {"q": q, "z": rng.choice([None, [1.0, 4.0]]), "d": rng.choice([0., 1., 2.5, 100.]), "az": rng.choice([0, 45, 90, 180, -90, 270, 359.5, -180, 720.25, rng.uniform(-400, 400)])}


def angdiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def check(c):
    a, b = c["q"]
    e = math.hypot(b[0] - a[0], b[1] - a[1])
    P, Q = Point(tuple(a)), Point(tuple(b))
    ensure(close(P.distance(Q), e, 1e-12) and P.distance(Q) == Q.distance(P), "distance %r, expected %r", P.distance(Q), e)
    if c["z"]:
        P3, Q3 = Point(tuple(a) + (c["z"][0],)), Point(tuple(b) + (c["z"][1],))
        ensure(close(P3.distance(Q3), math.sqrt(e * e + 9.0), 1e-12), "3d distance %r", P3.distance(Q3))
        ensure(close(P3.distance(Q), e, 1e-12), "2d distance from a 3d point %r", P3.distance(Q))
    az = P.azimuth(Q)
    if a == b:
        ensure(math.isnan(az), "azimuth of a point to itself is %r", az)
    else:
        ensure(-180 <= az <= 180, "azimuth %r outside [-180, 180]", az)
        t = math.radians(az)
        ensure(abs(math.sin(t) * e - (b[0] - a[0])) < 1e-9 * (1 + e) and abs(math.cos(t) * e - (b[1] - a[1])) < 1e-9 * (1 + e),
               "azimuth %r does not lead from %s to %s", az, a, b)
        ensure(angdiff(Q.azimuth(P), az + 180) < 1e-9, "back azimuth %r of %r", Q.azimuth(P), az)
        W = P.walk(e, az)
        ensure(pclose(W.vertex(), b, 1e-9), "walking the azimuth and distance ends at %s, expected %s", W.vertex(), b)
        fz, bz, d = Cartesian.inverse(a[0], a[1], b[0], b[1])
        ensure(angdiff(fz, az) < 1e-9 and angdiff(bz, az + 180) < 1e-9 and close(d, e, 1e-12), "crs inverse gives %s", (fz, bz, d))
        fr_, br, d = Cartesian.inverse(a[0], a[1], b[0], b[1], radians=True)
        ensure(angdiff(math.degrees(fr_), az) < 1e-9 and angdiff(math.degrees(br), az + 180) < 1e-9, "crs inverse in radians gives %s", (fr_, br))
    W = P.walk(c["d"], c["az"])
    t = math.radians(c["az"])
    w = (a[0] + c["d"] * math.sin(t), a[1] + c["d"] * math.cos(t))
    ensure(pclose(W.vertex(), w, 1e-9), "walk ends at %s, expected %s", W.vertex(), w)
    ensure(tuple(P.vertex()) == tuple(a), "the start moved")
    x, y, bz = Cartesian.forward(a[0], a[1], c["az"], c["d"])
    ensure(pclose((x, y), w, 1e-9) and angdiff(float(bz), c["az"] + 180) < 1e-9, "crs forward gives %s", (x, y, bz))
    x, y, bz = Cartesian.forward(a[0], a[1], t, c["d"], radians=True)
    ensure(pclose((x, y), w, 1e-9) and angdiff(math.degrees(float(bz)), c["az"] + 180) < 1e-9, "crs forward in radians gives %s", (x, y, bz))
    ensure(tuple(Cartesian.project(a[0], a[1])) == tuple(a) and tuple(Cartesian.project(a[0], a[1], inverse=True)) == tuple(a), "projection is not the identity")
    s = P.shift((c["d"], -c["d"]))
    ensure(tuple(s.vertex()) == (a[0] + c["d"], a[1] - c["d"]), "shift gives %s", s.vertex())


def gen_pts_on(rng):
    return {"v": gen_pts(rng, rng.randint(2, 6), 2, -9, 9, 2), "dx": rng.choice([.5, 1., 2.5, 7.]), "n": rng.randint(2, 12)}


def along(V, s):
    for a, b in segs(V, False):
        l = math.hypot(b[0] - a[0], b[1] - a[1])
        if s <= l and l > 0:
            return (a[0] + (b[0] - a[0]) * s / l, a[1] + (b[1] - a[1]) * s / l)
        s -= l
    return tuple(V[-1])


def check_pts_on(c):
    V = c["v"]
    if any(a == b for a, b in segs(V, False)):
        raise Skip
    L = Line(V)
    tot = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in segs(V, False))
    mp = L.to_points(c["dx"])
    k = tot / c["dx"]
    if abs(k - round(k)) > 1e-6:
        ensure(len(mp) == int(k) + 1, "%d points at spacing %r along length %r", len(mp), c["dx"], tot)
    for i in range(len(mp)):
        ensure(pclose(mp[i].vertex(), along(V, i * c["dx"]), 1e-6), "point %d is %s, expected %s", i, mp[i].vertex(), along(V, i * c["dx"]))
    n = c["n"]
    mp = L.to_npoints(n)
    ensure(len(mp) == n, "%d points instead of %d", len(mp), n)
    for i in range(n):
        ensure(pclose(mp[i].vertex(), along(V, i * tot / (n - 1)), 1e-6), "point %d of %d is %s, expected %s", i, n, mp[i].vertex(), along(V, i * tot / (n - 1)))
    ensure(verts(L) == [tuple(map(float, p)) for p in V], "the line changed")


CLAUSES = [
    Clause("direct-inverse", "distance, azimuth (clockwise from north) and walk agree with each other and with the plane; coordinate system forward and inverse likewise, degrees and radians",
           gen, check, quick=10000, thorough=400000),
    Clause("along", "points laid along a line are equally spaced on it, first vertex first, in the stated number", gen_pts_on, check_pts_on, quick=3000, thorough=100000),
]
