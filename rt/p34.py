"""P34: GPX documents."""
import os, tempfile, shutil
import numpy as np
from core import *
from vg import *
from karta.vector import read_gpx_waypts, read_gpx_tracks
from karta.vector._gpx import GPX, VALID_PROPERTIES
from karta.crs import LonLatWGS84


def _ll(rng):
    return [rng.randint(-179999999, 180000000) / 1e6, rng.randint(-89999999, 90000000) / 1e6]


def _props(rng):
    ks = rng.sample(["name", "ele", "time", "cmt", "colour", "speed", "src"], rng.randint(0, 4))
    return {k: rng.choice(["x", "two words", "a<b&c", "3", "1.5"]) for k in ks}


def _multi(rng):
    n = rng.randint(1, 5)
    return {"p": [_ll(rng) for _ in range(n)], "props": _props(rng),
            "data": {k: ["%s%d" % (k[0], rng.randint(0, 99)) for _ in range(n)] for k in rng.sample(["ele", "name", "heading", "sat"], rng.randint(0, 3))}}


def gen(rng):
    return {"w": [{"p": _ll(rng), "props": _props(rng)} for _ in range(rng.randint(0, 4))],
            "t": [[_multi(rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 3))],
            "r": [_multi(rng) for _ in range(rng.randint(0, 3))], "sel": [rng.random() < .85 for _ in range(3)],
            "attr": _props(rng)}


def mp(m):
    return Multipoint([tuple(p) for p in m["p"]], data=dict(m["data"]) or None, properties=dict(m["props"]), crs=LonLatWGS84)


def split(props):
    return ({k: str(v) for k, v in props.items() if k in VALID_PROPERTIES}, {k: str(v) for k, v in props.items() if k not in VALID_PROPERTIES})


def near(a, b):
    return abs(a[0] - b[0]) <= 1.01e-6 and abs(a[1] - b[1]) <= 1.01e-6


def both(pt):
    return dict(pt.properties, **pt.extensions)


def check(c):
    G = GPX(waypoints=[Point(tuple(w["p"]), properties=dict(w["props"])) for w in c["w"]])
    for t in c["t"]:
        G.add_track(*[mp(m) for m in t], attributes=dict(c["attr"]))
    for m in c["r"]:
        G.add_route(mp(m))
    d = tempfile.mkdtemp(prefix="kartart")
    try:
        fn = os.path.join(d, "a.gpx")
        sw, st, sr = c["sel"]
        G.writefile(fn, waypts=sw, tracks=st, routes=sr)
        H = GPX(fn)
        W, T = read_gpx_waypts(fn), read_gpx_tracks(fn)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ew = c["w"] if sw else []
    et = c["t"] if st else []
    er = c["r"] if sr else []
    ensure(len(H.waypts) == len(ew) == len(W) and len(H.tracks) == len(et) == len(T) and len(H.routes) == len(er), "%d waypoints, %d tracks, %d routes", len(H.waypts), len(H.tracks), len(H.routes))
    for w, a, b in zip(ew, H.waypts, W):
        ensure(near(a.lonlat, w["p"]) and near(b.vertex(), w["p"]), "waypoint moved")
        pr, ex = split(w["props"])
        ensure(a.properties == pr and a.extensions == ex, "waypoint properties %s", a)
        ensure(b.properties == pr and b.crs == LonLatWGS84, "waypoint read as %s", b.properties)
    for t, a, b in zip(et, H.tracks, T):
        ensure(len(a.trksegs) == len(t) == len(b), "track segments")
        ensure(both(a) == {k: str(v) for k, v in c["attr"].items()}, "track attributes %s", both(a))
        for m, s, l in zip(t, a.trksegs, b):
            pr, ex = split(m["props"])
            ensure(s.properties == pr and s.extensions == ex, "segment properties %s", s)
            ensure(len(s.trkpts) == len(m["p"]) == len(l), "segment points")
            for i, (p, q, v) in enumerate(zip(m["p"], s.trkpts, l.vertices())):
                ensure(near(q.lonlat, p) and near(v, p), "track point moved")
                ensure(both(q) == {k: m["data"][k][i] for k in m["data"]}, "track point data %s", both(q))
            ensure(l.properties == pr and l.crs == LonLatWGS84, "segment read with %s", l.properties)
    for m, a in zip(er, H.routes):
        ensure(both(a) == {k: str(v) for k, v in m["props"].items()}, "route properties %s", both(a))
        ensure(len(a.rtepts) == len(m["p"]), "route points")
        for i, (p, q) in enumerate(zip(m["p"], a.rtepts)):
            ensure(near(q.lonlat, p), "route point moved")
            ensure(both(q) == {k: m["data"][k][i] for k in m["data"]}, "route point data %s", both(q))


CLAUSES = [
    Clause("gpx", "waypoints, tracks and routes written to a GPX document are read back in order with their positions, properties, extensions and point data",
           gen, check, quick=2500, thorough=60000),
]
