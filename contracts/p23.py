"""P23: ellipsoids, their definition strings, and the normalisation of geodesic azimuths."""
import itertools
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term

ASSUME = ["pyproj.Geod fwd and inv return numbers (nothing else is used of them)",
          "definition strings: every order of the tokens with symbolic values; the number written is the number read"]


def consistent(E, e, a, b, f):
    E.prove("a", e.a == a)
    E.prove("b", e.b == b)
    E.prove("f", e.f == f)
    E.prove("f is (a-b)/a", e.f * e.a == e.a - e.b)


def given(E):
    """an arbitrary ellipsoid and one of the ways to define it"""
    a, f = E.real("a"), E.real("f")
    E.assume(And(a > 0, f >= 0, f < 1))
    by = ("b", "f", "rf")[E.choose(3)]
    b = a * (1 - f)
    if by == "rf":
        rf = E.real("rf")
        E.assume(And(rf * f == 1, rf > 1, f > 0))
        return a, b, f, by, rf
    return a, b, f, by, b if by == "b" else f


@contract("karta.crs.Ellipsoid: semi-axes and flattening agree whichever pair is given")
def ellipsoid(env):
    E = env.E
    a, b, f, by, v = given(E)
    e = env.mod("karta.crs").Ellipsoid("n", a=a, **{by: v})
    consistent(E, e, a, b, f)
    E.prove("name", e.name == "n")


@contract("karta.crs.Ellipsoid: refused without a semi-major axis")
def no_axis(env):
    E = env.E
    C = env.mod("karta.crs").Ellipsoid
    try:
        C("n", **{("b", "f", "rf")[E.choose(3)]: E.real("v")})
        ok = False
    except ValueError:
        ok = True
    E.prove("ValueError", ok)


@contract("karta.crs.parse_ellipsoid: the ellipsoid of a definition string, whatever the order of its tokens")
def parse(env):
    E = env.E
    a, b, f, by, v = given(E)
    E.strnums = {"1001.5": a, "1002.5": v}
    toks = ["+proj=longlat", "+a=1001.5", "+%s=1002.5" % by, "+lat_0=45", "+no_defs"]
    perms = list(itertools.permutations(range(4)))
    o = perms[E.choose(len(perms))]
    s = " ".join([toks[i] for i in o] + toks[4:])
    e = env.mod("karta.crs").parse_ellipsoid(s)
    consistent(E, e, a, b, f)


@contract("karta.crs.parse_ellipsoid: refused without an ellipsoid")
def parse_none(env):
    E = env.E
    m = env.mod("karta.crs")
    s = ["", "+proj=longlat", "+proj=utm +zone=11 +no_defs", "+a=6378137", "+b=6356752", "+lat_0=4 +a=6378137.0 +units=m"][E.choose(6)]
    try:
        m.parse_ellipsoid(s)
        ok = False
    except Exception as x:
        ok = type(x).__name__ == "CRSError"
    E.prove("CRSError", ok)


@contract("karta.crs.parse_ellipsoid: named ellipsoids and datums give the entries of the tables")
def parse_named(env):
    E = env.E
    m = env.mod("karta.crs")
    names, datums = sorted(m.ELLIPSOID_DATA), sorted(m.DATUM_ELLIPSOIDS)
    k = E.choose(len(names) + len(datums))
    if k < len(names):
        en = names[k]
        s = "+proj=longlat +ellps=%s +no_defs" % en
    else:
        d = datums[k - len(names)]
        en = m.DATUM_ELLIPSOIDS[d]
        s = "+proj=longlat +datum=%s" % d
    e = m.parse_ellipsoid(s)
    a, b, rf, nm = m.ELLIPSOID_DATA[en]
    E.prove("a", e.a == a)
    E.prove("one of b, rf", (b is None) != (rf is None))
    from fractions import Fraction
    if b is not None:
        E.prove("b", e.b == b)
    else:
        E.prove("rf", abs(float(e.f) * rf - 1) < 1e-12)
    E.prove("f is (a-b)/a", abs(float(e.f) * float(e.a) - (float(e.a) - float(e.b))) < 1e-6)
    E.prove("name", e.name == nm)


class Geod(object):
    def __init__(self, E):
        self.E = E
        self.seen = []

    def fwd(self, *a, **k):
        self.seen.append(("fwd", a, k))
        return self.E.real("gx"), self.E.real("gy"), self.E.real("gbaz")

    def inv(self, *a, **k):
        self.seen.append(("inv", a, k))
        return self.E.real("gaz"), self.E.real("gbaz"), self.E.real("gd")


def norm(E, nm, r, v):
    E.prove("%s in [-180, 180)" % nm, And(r >= -180, r < 180))
    k = (r - v) / 360
    E.prove("%s as computed by the geodesic library" % nm, k == k.__floor__())


@contract("karta.crs.GeographicalCRS, ProjectedCRS forward and inverse: the library's result with azimuths normalised")
def geodesics(env):
    E = env.E
    m = env.mod("karta.crs")
    cls = (m.GeographicalCRS, m.ProjectedCRS)[E.choose(2)]
    c = object.__new__(cls)
    c._geod = G = Geod(E)
    x, y, u, v = [E.real(k) for k in "xyuv"]
    if E.choose(2) == 0:
        r = c.forward(x, y, u, v, radians=False)
        E.prove("position", And(r[0] == E.inputs["gx"], r[1] == E.inputs["gy"]))
        norm(E, "back azimuth", r[2], E.inputs["gbaz"])
    else:
        r = c.inverse(x, y, u, v)
        norm(E, "azimuth", r[0], E.inputs["gaz"])
        norm(E, "back azimuth", r[1], E.inputs["gbaz"])
        E.prove("distance", r[2] == E.inputs["gd"])
    args = list(G.seen[0][1]) + [w for n, w in G.seen[0][2].items() if n != "radians"]
    E.prove("asked with the arguments given", And(*[p == q for p, q in zip(args, (x, y, u, v))]))


@contract("karta.crs.GeographicalCRS.project: the identity in degrees")
def project(env):
    E = env.E
    m = env.mod("karta.crs")
    c = object.__new__(m.GeographicalCRS)
    x, y = E.real("x"), E.real("y")
    r = c.project(x, y, inverse=E.choose(2) == 1)
    E.prove("identity", And(r[0] == x, r[1] == y))
