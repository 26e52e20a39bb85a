"""P23: ellipsoids and coordinate system definitions."""
import numpy as np
from core import *
from karta import crs as C
from karta.crs import Ellipsoid, parse_ellipsoid

NAMES = sorted(C.ELLIPSOID_DATA)
DATUMS = sorted(C.DATUM_ELLIPSOIDS)
# reference values, from PROJ (proj -le / -ld), not from the code
import pyproj
REF = {}
try:
    from pyproj.list import get_ellps_map
    REF = get_ellps_map()
except Exception:
    REF = getattr(pyproj, "pj_ellps", {}) or {}
DREF = {"WGS84": "WGS84", "GGRS87": "GRS80", "NAD83": "GRS80", "NAD27": "clrk66", "potsdam": "bessel", "carthage": "clrk80ign", "hermannskogel": "bessel",
        "ire65": "mod_airy", "nzgd49": "intl", "OSGB36": "airy"}


def gen_e(rng):
    a = rng.choice([1.0, 2.0, 6378137.0, rng.uniform(.5, 1e7)])
    f = rng.choice([0.0, 1 / 298.257, .1, .5, rng.uniform(0, .9)])
    return {"a": a, "f": f, "by": rng.choice(["b", "f", "rf"]), "str": rng.random() < .5, "order": rng.randint(0, 5), "extra": rng.random() < .5}


def ok(e, a, b, f, t=1e-9):
    ensure(close(e.a, a, t), "a = %r, expected %r", e.a, a)
    ensure(e.b is not None and e.f is not None, "b or f is missing")
    ensure(abs(e.b - b) <= t * max(1, a), "b = %r, expected %r", e.b, b)
    ensure(abs(e.f - f) <= t, "f = %r, expected %r", e.f, f)
    ensure(abs(e.f - (e.a - e.b) / e.a) <= t, "f is not (a-b)/a")


def check_e(c):
    a, f = c["a"], c["f"]
    b = a * (1 - f)
    by = c["by"]
    if by == "rf" and f == 0:
        by = "f"
    v = {"b": b, "f": f, "rf": None if f == 0 else 1 / f}[by]
    if not c["str"]:
        ok(Ellipsoid("e", a=a, **{by: v}), a, b, f)
        return
    toks = ["+proj=longlat", "+a=%r" % a, "+%s=%r" % (by, v)] + (["+no_defs", "+units=m"] if c["extra"] else [])
    import itertools
    toks = list(itertools.permutations(toks[:3]))[c["order"]] + tuple(toks[3:])
    ok(parse_ellipsoid(" ".join(toks)), a, b, f)


def gen_n(rng):
    return {"kind": rng.choice(["ellps", "datum"]), "i": rng.randrange(1000), "proj": rng.choice(["+proj=utm +zone=11", "+proj=longlat", "+proj=stere +lat_0=90"]),
            "both": rng.random() < .3}


def val(v):
    return float(v)


def check_n(c):
    if c["kind"] == "ellps":
        n = NAMES[c["i"] % len(NAMES)]
        s = "%s +ellps=%s +no_defs" % (c["proj"], n)
        if c["both"]:
            s = "+datum=WGS84 " + s
        en = n
    else:
        d = DATUMS[c["i"] % len(DATUMS)]
        s = "%s +datum=%s +units=m" % (c["proj"], d)
        en = DREF.get(d)
    e = parse_ellipsoid(s)
    if en not in REF:
        ok(e, e.a, e.b, e.f)
        return False
    r = REF[en]
    a = val(r["a"])
    b = val(r["b"]) if "b" in r else a * (1 - (1 / val(r["rf"]) if "rf" in r else val(r.get("f", 0))))
    if en == "clrk80ign" and c["kind"] == "datum":
        # PROJ names the carthage ellipsoid clrk80ign (older releases: clrk80)
        r2 = REF["clrk80"]
        if close(e.a, val(r2["a"]), 1e-12):
            a = val(r2["a"])
            b = val(r2["b"]) if "b" in r2 else a * (1 - 1 / val(r2["rf"]))
    t = 1e-9
    ok(e, a, b, (a - b) / a, 2e-8)


def gen_bad(rng):
    return {"s": rng.choice(["+proj=longlat", "+proj=utm +zone=3 +units=m", "+proj=longlat +a=6378137", ""])}


def check_bad(c):
    from karta.errors import CRSError
    raises(CRSError, parse_ellipsoid, c["s"])
    raises(ValueError, Ellipsoid, "x", b=1.0)


def gen_crs(rng):
    return {"n": rng.choice(["SphericalEarth", "LonLatWGS84", "LonLatNAD27", "LonLatNAD83", "UPSNorth", "UPSSouth", "NSIDCNorth", "NSIDCSouth", "LambertEqualArea",
                             "GallPetersEqualArea", "WebMercator"]), "lon": rng.uniform(-179, 179), "lat": rng.uniform(-80, 80), "az": rng.uniform(-180, 180), "d": rng.uniform(1e3, 1e6)}


def check_crs(c):
    k = getattr(C, c["n"])
    lat = c["lat"]
    if "North" in c["n"]:
        lat = abs(lat)
    if "South" in c["n"]:
        lat = -abs(lat)
    lon = c["lon"]
    if c["n"] == "LambertEqualArea":
        lon /= 2
    x, y = k.project(lon, lat)
    u, v = k.project(x, y, inverse=True)
    ensure(abs(v - lat) < 1e-6 and abs((u - lon + 180) % 360 - 180) < 1e-6, "(%r, %r) comes back as (%r, %r)", lon, lat, u, v)
    x2, y2, baz = k.forward(lon, lat, c["az"], c["d"])
    ensure(-180 <= baz <= 180, "back azimuth %r", baz)
    az, b2, d = k.inverse(lon, lat, x2, y2)
    ensure(-180 <= az <= 180 and -180 <= b2 <= 180, "azimuths %r %r", az, b2)
    ensure(abs(d - c["d"]) < 1e-3 and abs((az - c["az"] + 180) % 360 - 180) < 1e-4 and abs((b2 - baz + 180) % 360 - 180) < 1e-4, "forward and inverse disagree: %s", (az, b2, d))
    e = k.ellipsoid
    ok(e, e.a, e.b, e.f)
    ensure(k == k and not (k != k), "not equal to itself")


CLAUSES = [
    Clause("axes", "an ellipsoid given by any of its axis / flattening pairs, in any order in a definition string, has consistent a, b and f", gen_e, check_e, quick=6000, thorough=100000),
    Clause("named", "named ellipsoids and datums resolve to PROJ's axes", gen_n, check_n, quick=3000, thorough=20000),
    Clause("reject", "a definition without an ellipsoid is refused", gen_bad, check_bad, quick=40, thorough=200),
    Clause("systems", "projecting and unprojecting is the identity; geodesic forward and inverse agree, azimuths normalised", gen_crs, check_crs, quick=3000, thorough=100000),
]
