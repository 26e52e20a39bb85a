"""P26: web map tiles."""
from core import *
from karta.vector.geometry import Point
from karta.crs import LonLatWGS84, WebMercator
from karta.tile import Tile, tile_from_point


def gen(rng):
    z = rng.choice([0, 1, 2, 3, 5, 8, 12, 18])
    n = 2 ** z
    mode = rng.choice(["any", "any", "tile"])
    if mode == "tile":
        x, y = rng.randrange(n), rng.randrange(n)
        lon = (x + rng.choice([.001, .5, .999])) / n * 360 - 180
        t = (y + rng.choice([.001, .5, .999])) / n
        lat = math.degrees(math.atan(math.sinh(math.pi * (1 - 2 * t))))
    else:
        lon, lat = rng.choice([rng.uniform(-180, 180), -180., 0., 179.999]), rng.choice([rng.uniform(-85.05, 85.05), 0., 66.5, -85.])
    if lon >= 180:
        lon = -180.
    return {"z": z, "lon": lon, "lat": lat}


def check(c):
    t = tile_from_point(Point((c["lon"], c["lat"]), crs=LonLatWGS84), c["z"])
    n = 2 ** c["z"]
    ensure(t.z == c["z"] and 0 <= t.x < n and 0 <= t.y < n, "tile (%d, %d, %d)", t.z, t.x, t.y)
    bb = t.bbox
    e = 1e-7
    ensure(bb[0] - e <= c["lon"] <= bb[2] + e and bb[1] - e <= c["lat"] <= bb[3] + e, "point outside the box %s of its tile", bb)
    xf = (c["lon"] + 180) / 360 * n
    yf = (1 - math.asinh(math.tan(math.radians(c["lat"]))) / math.pi) / 2 * n
    if abs(xf - round(xf)) > 1e-6 and abs(yf - round(yf)) > 1e-6:
        ensure((t.x, t.y) == (int(xf), int(yf)), "tile (%d, %d), expected (%d, %d)", t.x, t.y, int(xf), int(yf))
    ensure(close(bb[2] - bb[0], 360.0 / n, 1e-9), "tile is %r degrees wide", bb[2] - bb[0])
    nw = t.nw_corner()
    ensure(nw.x == bb[0] and nw.y == bb[3] and nw.crs == LonLatWGS84, "corner")
    # neighbours share edges exactly
    ensure(close(Tile(t.z, t.x + 1, t.y).bbox[0], bb[2], 1e-12) and close(Tile(t.z, t.x, t.y + 1).bbox[3], bb[1], 1e-12), "a gap between neighbours")
    ensure(Tile(t.z, t.x, t.y) == t and not (Tile(t.z, t.x + 1, t.y) == t) and not (Tile(t.z, t.x, t.y + 1) == t) and not (Tile(t.z + 1, t.x, t.y) == t), "equality")


CLAUSES = [Clause("tile", "the tile of a point contains it, tiles of a level partition the map, neighbours share edges", gen, check, quick=10000, thorough=300000)]
