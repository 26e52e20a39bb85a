"""P21: planar distance, azimuth, walking."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, isnan


def pt(E, n, z=None):
    return E.real("x" + n), E.real("y" + n)


def case(m):
    if not all(k in m for k in ("xa", "ya", "xb", "yb")):
        return None
    return {"q": [[m["xa"], m["ya"]], [m["xb"], m["yb"]]], "z": None, "d": m.get("d", 1.0), "az": m.get("az", 0.0)}


def num(v):
    return v.item() if hasattr(v, "item") and hasattr(v, "_fn") else v


def leads(E, az, dx, dy, e):
    """azimuth az (degrees) points along (dx, dy), e long"""
    s, c = E.trig(term(az * E.pi() / 180, True))
    return And(SNum(s) * e == dx, SNum(c) * e == dy)


def same_turn(E, u, v, per):
    """angles equal up to whole turns"""
    k = (u - v) / per
    return k == k.__floor__()


@contract("karta.vector.geometry.Point.distance: Euclidean in a planar system, in two and three dimensions", clause="direct-inverse", case=case)
def distance(env):
    E = env.E
    g = env.mod("karta.vector.geometry")
    (xa, ya), (xb, yb) = pt(E, "a"), pt(E, "b")
    ra, rb = E.choose(2), E.choose(2)
    za, zb = E.real("za"), E.real("zb")
    P = g.Point((xa, ya, za) if ra else (xa, ya))
    Q = g.Point((xb, yb, zb) if rb else (xb, yb))
    d = P.distance(Q)
    sq = (xb - xa) ** 2 + (yb - ya) ** 2
    if ra and rb:
        sq = sq + (zb - za) ** 2
    E.prove("not negative", d >= 0)
    E.prove("squares add up", d * d == sq)
    E.prove("symmetric", Q.distance(P) == d)


@contract("karta.vector.geometry.Point.azimuth: leads from the point to the other, clockwise from north, NaN for coincident points",
          clause="direct-inverse", case=case)
def azimuth(env):
    E = env.E
    g = env.mod("karta.vector.geometry")
    (xa, ya), (xb, yb) = pt(E, "a"), pt(E, "b")
    P, Q = g.Point((xa, ya)), g.Point((xb, yb))
    az = P.azimuth(Q)
    if isnan(az):
        E.prove("NaN only for coincident points", And(xa == xb, ya == yb))
        return
    E.prove("a number only for distinct points", Or(xa != xb, ya != yb))
    dx, dy = xb - xa, yb - ya
    e = E.sqrt(dx * dx + dy * dy)
    E.prove("within half a turn", And(az >= -180, az <= 180))
    E.prove("leads to the other point", leads(E, az, dx, dy, e))


@contract("karta.vector.geometry.Point.walk: moves by the distance along the azimuth; the point itself is unchanged", clause="direct-inverse", case=case)
def walk(env):
    E = env.E
    g = env.mod("karta.vector.geometry")
    xa, ya = pt(E, "a")
    d, az = E.real("d"), E.real("az")
    P = g.Point((xa, ya), properties={"k": 1})
    W = P.walk(d, az)
    E.prove("displacement", leads(E, az, W.x - xa, W.y - ya, d))
    E.prove("start unchanged", And(P.x == xa, P.y == ya))
    E.prove("system and properties kept", W.crs is P.crs and W.properties == {"k": 1})


@contract("karta.vector.geometry.Point: walking the azimuth and distance to a point arrives at it", clause="direct-inverse", case=case)
def roundtrip(env):
    E = env.E
    g = env.mod("karta.vector.geometry")
    (xa, ya), (xb, yb) = pt(E, "a"), pt(E, "b")
    E.assume(Or(xa != xb, ya != yb))
    P, Q = g.Point((xa, ya)), g.Point((xb, yb))
    W = P.walk(P.distance(Q), P.azimuth(Q))
    E.prove("arrives", And(W.x == xb, W.y == yb))


@contract("karta.crs.CartesianCRS.forward: displacement along the azimuth, back azimuth turned by half a turn, in degrees and radians")
def forward(env):
    E = env.E
    C = env.mod("karta.crs").CartesianCRS
    (x, y), az, d = pt(E, "a"), E.real("az"), E.real("d")
    rad = E.choose(2) == 1
    x2, y2, baz = [num(v) for v in C.forward(x, y, az, d, radians=rad)]
    deg = az * 180 / E.pi() if rad else az
    half, turn = (E.pi(), 2 * E.pi()) if rad else (180, 360)
    E.prove("displacement", leads(E, deg, x2 - x, y2 - y, d))
    s, c = E.trig(term(baz if rad else baz * E.pi() / 180, True))
    sa, ca = E.trig(term(az if rad else az * E.pi() / 180, True))
    E.prove("back azimuth points the other way", And(SNum(s) == -SNum(sa), SNum(c) == -SNum(ca)))


@contract("karta.crs.CartesianCRS.inverse: distance, azimuth and back azimuth between two points, in degrees and radians")
def inverse(env):
    E = env.E
    C = env.mod("karta.crs").CartesianCRS
    (xa, ya), (xb, yb) = pt(E, "a"), pt(E, "b")
    rad = E.choose(2) == 1
    az, baz, d = [num(v) for v in C.inverse(xa, ya, xb, yb, radians=rad)]
    deg = (lambda v: v * 180 / E.pi()) if rad else (lambda v: v)
    E.prove("distance", And(d >= 0, d * d == (xb - xa) ** 2 + (yb - ya) ** 2))
    E.prove("azimuth leads there", leads(E, deg(az), xb - xa, yb - ya, d))
    E.prove("back azimuth leads back", leads(E, deg(baz), xa - xb, ya - yb, d))


@contract("karta.crs.CartesianCRS.project: the identity")
def project(env):
    E = env.E
    C = env.mod("karta.crs").CartesianCRS
    x, y = pt(E, "a")
    r = C.project(x, y, inverse=E.choose(2) == 1)
    E.prove("identity", And(r[0] == x, r[1] == y))


@contract("karta.vector.geometry.Point.shift: adds the vector, keeps a third coordinate", clause="direct-inverse", case=case)
def shift(env):
    E = env.E
    g = env.mod("karta.vector.geometry")
    x, y = pt(E, "a")
    z, dx, dy = E.real("z"), E.real("d"), E.real("dy")
    three = E.choose(2) == 1
    P = g.Point((x, y, z) if three else (x, y))
    S = P.shift((dx, dy))
    E.prove("moved", And(S.x == x + dx, S.y == y + dy))
    E.prove("rank", len(S._vertex) == (3 if three else 2))
    if three:
        E.prove("height kept", S.z == z)
