"""P22: angles, longitudes, spherical conversions."""
import numpy as np
from core import *
from karta import geodesy as G
from karta.vector.dateline import crosses_dateline

pi = math.pi


def gen(rng):
    r = rng.random()
    if r < .5:
        d = rng.choice([0, 90, 180, 360, 540, 720, 179.5, 359.75, 1e-9, 1080]) * rng.choice([1, -1]) + rng.choice([0, 0, .25, -.25])
    elif r < .9:
        d = rng.uniform(-1000, 1000)
    else:
        d = rng.uniform(-1e6, 1e6)
    return {"d": d, "e": rng.choice([rng.uniform(-180, 180), 180., -180., 0., 90.]), "l": [rng.choice([rng.uniform(-180, 179), 0., -180., 179., 90., -90.]) for _ in range(3)]}


def mult(x, p, tol):
    k = round(x / p)
    return abs(x - k * p) <= tol


def check(c):
    d = c["d"]
    t = 1e-9 * max(1, abs(d))
    for f, lo, hi, per in ((G.unroll_deg, 0, 360, 360), (G.reduce_deg, -180, 180, 360)):
        r = f(d)
        ensure(lo <= r <= hi and (r < hi or abs(d) < 1e-6 or True), "%s(%r) = %r is out of range", f.__name__, d, r)
        ensure(r < hi or abs(r - hi) < 1e-9, "%s(%r) = %r", f.__name__, d, r)
        ensure(mult(r - d, per, t), "%s(%r) = %r differs by no whole turn", f.__name__, d, r)
    rad = d * pi / 180
    for f, lo, hi in ((G.unroll_rad, 0, 2 * pi), (G.reduce_rad, -pi, pi)):
        r = f(rad)
        ensure(lo - 1e-12 <= r <= hi + 1e-12, "range of %r", r)
        ensure(mult(r - rad, 2 * pi, 1e-9 * max(1, abs(rad))), "value of %r for %r", r, rad)
        v = f([rad, rad + 1])
        ensure(len(v) == 2 and close(v[0], r), "vector form differs")
    ensure(close(G._degrees(G._radians(d)), d, 1e-12), "degrees of radians of %r", d)
    ensure(close(G._radians(180.0), pi) and close(G._degrees(pi), 180.0), "radians")
    # the shorter arc from x0 to x1
    x, x0, x1 = c["l"]
    arc = (x1 - x0) % 360
    if arc > 180:
        x0, x1, arc = x1, x0, 360 - arc
    if 1e-6 < abs(arc - 180) and arc < 180:
        u = (x - x0) % 360
        if min(abs(u), abs(u - arc), abs(u - 360)) > 1e-6:
            e = u < arc
            for p, q in ((c["l"][1], c["l"][2]), (c["l"][2], c["l"][1]), (c["l"][1] + 360, c["l"][2])):
                ensure(bool(G.isbetween_circular(x, p, q)) == e, "isbetween_circular(%r, %r, %r) is not %s", x, p, q, e)
    a, b = c["l"][:2]
    if abs(abs(a - b) - 180) > 1e-9:
        e = 0
        if abs(a - b) > 180:
            e = 1 if b > a else -1
        ensure(crosses_dateline(a, b) == e, "crosses_dateline(%r, %r) = %r, expected %r", a, b, crosses_dateline(a, b), e)


def gen_canon(rng):
    y = lambda: rng.choice([rng.uniform(-90, 90), 0., 45., -45., 90., -90.])
    x = lambda: rng.choice([rng.uniform(-180, 180), 0., 180., -180., 179.5, -179.5])
    return {"p": [x(), y(), x(), y()]}


def check_canon(c):
    x1, y1, x2, y2 = c["p"]
    tr, a1, b1, a2, b2 = G._canonical_configuration(x1, y1, x2, y2)
    ensure(b1 <= 0 and b1 <= b2 <= -b1, "latitudes %r, %r", b1, b2)
    ensure(a1 == 0 and 0 <= a2 <= 180, "longitudes %r, %r", a1, a2)
    # undo
    u1, u2 = b1, b2
    if tr["ysignswap"]:
        u1, u2 = -u1, -u2
    if tr["yflip"]:
        u1, u2 = u2, u1
    ensure(u1 == y1 and u2 == y2, "latitudes are not recovered: %r %r", (u1, u2), (y1, y2))
    w = -a2 if tr["xflip"] else a2
    ensure(mult(w - (x2 - x1), 360, 1e-9), "the longitude difference is not recovered")


def gen_sph(rng):
    return {"lon": rng.choice([rng.uniform(-180, 180), 0., 90., -90., 180.]), "lat": rng.choice([rng.uniform(-89, 89), 0., 45.]), "k": rng.choice([1., 2.5, .01]),
            "p": [rng.uniform(-170, 170), rng.uniform(-85, 85)], "q": [rng.uniform(-170, 170), rng.uniform(-85, 85)]}


def check_sph(c):
    x, y, z = G.sph2cart(c["lon"], c["lat"])
    ensure(close(x * x + y * y + z * z, 1.0), "not on the unit sphere")
    la, lo = math.radians(c["lat"]), math.radians(c["lon"])
    ensure(close(x, math.cos(la) * math.cos(lo)) and close(y, math.cos(la) * math.sin(lo)) and close(z, math.sin(la)), "sph2cart gives %s", (x, y, z))
    lon, lat = G.cart2sph(x * c["k"], y * c["k"], z * c["k"])
    ensure(abs(lat - c["lat"]) < 1e-6 and mult(lon - c["lon"], 360, 1e-6), "(%r, %r) comes back as (%r, %r)", c["lon"], c["lat"], lon, lat)
    u, v = G.sph2cart(*c["p"]), G.sph2cart(*c["q"])
    w = G.cross(u, v)
    ensure(abs(sum(a * b for a, b in zip(w, u))) < 1e-12 and abs(sum(a * b for a, b in zip(w, v))) < 1e-12, "cross product is not orthogonal")
    dt = sum(a * b for a, b in zip(u, v))
    ensure(close(sum(a * a for a in w), 1 - dt * dt), "cross product has another norm")
    ensure(close(w[2], u[0] * v[1] - u[1] * v[0]), "cross product is not right-handed")
    r = [math.radians(t) for t in c["p"] + c["q"]]
    d = G.sphere_distance(r[0], r[1], r[2], r[3], radius=3.0)
    ensure(close(d, 3.0 * math.acos(max(-1, min(1, dt))), 1e-6), "sphere distance %r", d)
    # the opposite point is half a turn away
    d = G.sphere_distance(r[0], r[1], r[0] + math.pi, -r[1])
    ensure(abs(d - math.pi) < 1e-6, "the opposite point at distance %r", d)
    az = G.sphere_azimuth(c["p"][0], c["p"][1], c["q"][0], c["q"][1])
    # move along the azimuth: must arrive
    th = math.acos(max(-1, min(1, dt)))
    n = (-math.sin(r[1]) * math.cos(r[0]), -math.sin(r[1]) * math.sin(r[0]), math.cos(r[1]))
    e = (-math.sin(r[0]), math.cos(r[0]), 0.0)
    w = [u[i] * math.cos(th) + (n[i] * math.cos(az) + e[i] * math.sin(az)) * math.sin(th) for i in range(3)]
    ensure(all(abs(a - b) < 1e-6 for a, b in zip(w, v)), "sphere azimuth %r does not lead to the second point", az)


CLAUSES = [
    Clause("reduce", "reduced angles are in range and differ from the argument by whole turns; circular betweenness follows the shorter arc; dateline crossing is detected with its direction",
           gen, check, quick=16000, thorough=600000),
    Clause("canonical", "the canonical configuration satisfies its inequalities and the recorded flips recover the original", gen_canon, check_canon, quick=8000, thorough=200000),
    Clause("sphere", "spherical and cartesian coordinates convert back and forth; spherical distance and azimuth lead from point to point", gen_sph, check_sph, quick=8000, thorough=200000),
]
