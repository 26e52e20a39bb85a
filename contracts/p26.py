"""P26: web map tiles."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, SNum, term, const

ASSUME = ["sin, tan, log, atan and sinh are known only through: Gd(w) = atan(sinh(w)) is strictly increasing with values in (-pi/2, pi/2), "
          "and log(tan(pi/4 + u/2)) is its inverse",
          "the point's system is known through its inverse projection (P23)"]


class Math(object):
    """the functions of the Mercator projection, as uninterpreted functions"""
    def __init__(self, E):
        self.E, self.pi = E, E.pi()
        self.tans, self.sinhs, self.points = [], [], []

    def f(self, name, v):
        return SNum(z3.Function("m_" + name, z3.RealSort(), z3.RealSort())(term(v, True)))

    def point(self, w, g, when=True):
        E = self.E
        for w1, g1, when1 in self.points:
            ok = And(when, when1)
            E.assume(And(Implies(ok, (w1 < w) == (g1 < g)), Implies(ok, (w1 == w) == (g1 == g))))
        self.points.append((w, g, when))

    def radians(self, d):
        return d * self.pi / 180

    def degrees(self, r):
        return r * 180 / self.pi

    def tan(self, a):
        t = self.f("tan", a)
        self.tans.append((a, t))
        return t

    def log(self, v):
        E, r = self.E, self.f("log", v)
        for a, t in self.tans:
            u = 2 * a - self.pi / 2
            psi = self.f("psi", u)
            E.assume(Implies(v == t, r == psi))
            self.point(psi, u, And(-self.pi / 2 < u, u < self.pi / 2))
        return r

    def sinh(self, w):
        s = self.f("sinh", w)
        self.sinhs.append((w, s))
        return s

    def atan(self, v):
        E, r = self.E, self.f("atan", v)
        for w, s in self.sinhs:
            g = self.f("gd", w)
            E.assume(And(Implies(v == s, r == g), -self.pi / 2 < g, g < self.pi / 2))
            self.point(w, g)
        return r


def setup(env):
    E = env.E
    m = env.mod("karta.tile")
    m.math = M = Math(E)
    z = E.int("z", 0)
    n = 2 ** z
    E.assume(n >= 1)
    return E, m, M, z, n


class Projected(object):
    """any coordinate system, known through its inverse projection of one point"""
    name = "projected"

    def __init__(self, E, m, lon, lat):
        self.E, self.m = E, m
        self.at, self.to = (E.real("px"), E.real("py")), (lon, lat)

    def project(self, x, y, inverse=False):
        if not inverse:
            return self.E.fresh("fx", "real"), self.E.fresh("fy", "real")
        self.E.prove("the point is projected back", And(x == self.at[0], y == self.at[1]))
        return self.to

    def point(self):
        return self.m.Point(self.at, crs=self)


def place(E, m, M):
    """a point of the map: |latitude| below that of the map's edge"""
    lon, lat = E.real("lon"), E.real("lat")
    E.assume(And(-180 <= lon, lon < 180, -90 < lat, lat < 90))
    psi = M.log(M.tan(M.pi / 4 + lat * M.pi / 360))
    E.assume(And(-M.pi < psi, psi <= M.pi))
    return lon, lat, Projected(E, m, lon, lat).point()


@contract("karta.tile.tile_from_point, Tile.bbox: the tile of a point is on the map and contains the point")
def contains(env):
    E, m, M, z, n = setup(env)
    lon, lat, p = place(E, m, M)
    t = m.tile_from_point(p, z)
    E.prove("zoom", t.z == z)
    E.prove("on the map", And(0 <= t.x, t.x < n, 0 <= t.y, t.y < n))
    l, b, r, u = t.bbox
    E.prove("columns", And(l <= lon, lon < r))
    E.prove("rows", And(b < lat, lat <= u))


@contract("karta.tile.tile_from_point: a point belongs to no other tile")
def one(env):
    E, m, M, z, n = setup(env)
    lon, lat, p = place(E, m, M)
    x, y = E.int("x"), E.int("y")
    l, b, r, u = m.Tile(z, x, y).bbox
    t = m.tile_from_point(p, z)
    E.prove("columns", Implies(And(l <= lon, lon < r), t.x == x))
    E.prove("rows", Implies(And(b < lat, lat <= u), t.y == y))


@contract("karta.tile.Tile.bbox, nw_corner: neighbours share their edges, corners are those of the box")
def edges(env):
    E, m, M, z, n = setup(env)
    x, y = E.int("x"), E.int("y")
    l, b, r, u = m.Tile(z, x, y).bbox
    c = m.Tile(z, x, y).nw_corner()
    E.prove("corner", And(c.x == l, c.y == u))
    E.prove("in geographical coordinates", c.crs == m.LonLatWGS84)
    E.prove("to the east", m.Tile(z, x + 1, y).bbox[0] == r)
    E.prove("to the south", m.Tile(z, x, y + 1).bbox[3] == b)
    E.prove("columns", And(l == 360 * x / E.tofloat(n) - 180, r == 360 * (x + 1) / E.tofloat(n) - 180))


@contract("karta.tile.tile_from_point: the corner of a tile maps back to the tile")
def back(env):
    E, m, M, z, n = setup(env)
    x, y = E.int("x"), E.int("y")
    E.assume(And(0 <= x, x < n, 0 <= y, y < n))
    c = m.Tile(z, x, y).nw_corner()
    t = m.tile_from_point(c, z)
    E.prove("zoom", t.z == z)
    E.prove("column", t.x == x)
    E.prove("row", t.y == y)


@contract("karta.tile.Tile.__eq__: the same zoom, column and row")
def equal(env):
    E = env.E
    m = env.mod("karta.tile")
    a, b = [[E.int(n + c) for n in "zxy"] for c in "ab"]
    same = And(*[p == q for p, q in zip(a, b)])
    r = m.Tile(*a) == m.Tile(*b)
    E.prove("equal exactly then", r == same if not isinstance(r, bool) else (same if r else Not(same)))
    E.prove("not equal to other things", not (m.Tile(*a) == 5))
