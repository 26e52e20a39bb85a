"""P22: reduced angles, dateline crossings, canonical configuration, spherical coordinates."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool

ASSUME = ["sin, cos and atan2 are known only through: sin^2+cos^2=1, (x,y)=|(x,y)|(cos atan2(y,x), sin atan2(y,x)), "
          "atan2(h sin t, h cos t)=t for h>0 and -pi<t<=pi, sin(pi/2-t)=cos t, cos(pi/2-t)=sin t, sin>0 on (0,pi), cos>0 on (-pi/2,pi/2)"]


def turns(E, x, r, per):
    q = (x - r) / per
    return q == q.__floor__()


def case(m):
    return {"d": m.get("x", 0.0), "e": 0.0, "l": [0.0, 1.0, 2.0]}


@contract("karta.geodesy.reduce_deg: -180 <= r < 180 and r = deg + 360k", clause="angles", case=case)
def reduce_deg(env):
    E = env.E
    x = E.real("x")
    r = env.mod("karta.geodesy").reduce_deg(x)
    E.prove("range", And(r >= -180, r < 180))
    E.prove("differs by whole turns", turns(E, x, r, 360))


@contract("karta.geodesy.unroll_deg: 0 <= r < 360 and r = deg + 360k", clause="angles", case=case)
def unroll_deg(env):
    E = env.E
    x = E.real("x")
    r = env.mod("karta.geodesy").unroll_deg(x)
    E.prove("range", And(r >= 0, r < 360))
    E.prove("differs by whole turns", turns(E, x, r, 360))


@contract("karta.geodesy.reduce_rad: -pi <= r < pi and r = rad + 2 pi k")
def reduce_rad(env):
    E = env.E
    x = E.real("x")
    r = env.mod("karta.geodesy").reduce_rad(x)
    p = E.pi()
    E.prove("range", And(r >= -p, r < p))
    k = E.floordiv(x + p, 2 * p)
    E.prove("differs by whole turns", r == x - k * (2 * p))


@contract("karta.geodesy.unroll_rad: 0 <= r < 2 pi and r = rad + 2 pi k")
def unroll_rad(env):
    E = env.E
    x = E.real("x")
    r = env.mod("karta.geodesy").unroll_rad(x)
    p = E.pi()
    E.prove("range", And(r >= 0, r < 2 * p))
    k = E.floordiv(x, 2 * p)
    E.prove("differs by whole turns", r == x - k * (2 * p))


@contract("karta.geodesy._radians, _degrees: scaled by pi/180 and inverse")
def radians(env):
    E = env.E
    g = env.mod("karta.geodesy")
    x = E.real("x")
    E.prove("radians", g._radians(x) * 180 == x * E.pi())
    E.prove("degrees", g._degrees(x) * E.pi() == x * 180)
    E.prove("inverse", g._degrees(g._radians(x)) == x)


def case_between(m):
    return {"d": 0.0, "e": 0.0, "l": [m["x0"] + m["v"] + 360 * m["m2"], m["x0"], m["x0"] + m["w"] + 360 * m["m1"]]}


@contract("karta.geodesy.isbetween_circular: x lies on the shorter arc between x0 and x1", clause="angles", case=case_between)
def isbetween(env):
    E = env.E
    g = env.mod("karta.geodesy")
    x0 = E.real("x0")
    # the shorter arc runs from s over a length w < 180
    m1, m2, w, v = E.int("m1"), E.int("m2"), E.real("w"), E.real("v")
    E.assume(And(w >= 0, w < 360, w != 180, v >= 0, v < 360))
    x1, x = x0 + w + 360 * m1, x0 + v + 360 * m2
    inside = If(w < 180, v <= w, Or(v >= w, v == 0))
    r = bool(g.isbetween_circular(x, x0, x1))
    E.prove("membership", inside if r else Not(inside))


@contract("karta.vector.dateline.crosses_dateline: the shorter way between two longitudes", clause="angles",
          case=lambda m: {"d": 0.0, "e": 0.0, "l": [m.get("a", 0.0), m.get("b", 0.0), 1.0]})
def dateline(env):
    E = env.E
    f = env.mod("karta.vector.dateline").crosses_dateline
    a, b = E.real("a"), E.real("b")
    E.assume(And(a >= -180, a < 180, b >= -180, b < 180))
    d = b - a
    E.assume(And(d != 180, d != -180))
    r = f(a, b)
    E.prove("crossing", r == If(d > 180, 1, If(d < -180, -1, 0)))


@contract("karta.geodesy._canonical_configuration: y1 <= 0, y1 <= y2 <= -y1, 0 <= x2 <= 180, undone by its flags")
def canonical(env):
    E = env.E
    f = env.mod("karta.geodesy")._canonical_configuration
    x1, y1, x2, y2 = [E.real(n) for n in ("x1", "y1", "x2", "y2")]
    tr, a1, b1, a2, b2 = f(x1, y1, x2, y2)
    E.prove("first latitude is the southern extreme", And(b1 <= 0, b1 <= b2, b2 <= -b1))
    E.prove("longitude difference in [0, 180]", And(a2 - a1 >= 0, a2 - a1 <= 180))
    # undo
    c1, c2, d = b1, b2, a2 - a1
    if tr["xflip"]:
        d = -d
    if tr["ysignswap"]:
        c1, c2 = -c1, -c2
    if tr["yflip"]:
        c1, c2 = c2, c1
    E.prove("latitudes are recovered", And(c1 == y1, c2 == y2))
    q = (x2 - x1 - d) / 360
    E.prove("longitude difference is recovered", q == q.__floor__())


def trig(E, *angles):
    """axioms at the angles used"""
    E.trusted.add("sin(pi/2-t)=cos t, cos(pi/2-t)=sin t; sin>0 on (0,pi); cos>0 on (-pi/2,pi/2)")
    p = E.PI
    for a in angles:
        t = z3.simplify(a.t)
        c = z3.simplify(p / 2 - t)
        s1, c1 = E.trig(t)
        s2, c2 = E.trig(c)
        E.add(z3.And(s2 == c1, c2 == s1))
        E.add(z3.Implies(z3.And(t > 0, t < p), s1 > 0))
        E.add(z3.Implies(z3.And(t > -p / 2, t < p / 2), c1 > 0))


def atan2_at(E, r, y, x, h, t):
    """atan2(h sin t, h cos t) = t"""
    E.trusted.add("atan2(h sin t, h cos t) = t for h > 0, -pi < t <= pi")
    s, c = E.trig(z3.simplify(t.t))
    tt = z3.simplify(t.t)
    E.add(z3.Implies(z3.And(h.t > 0, y.t == h.t * s, x.t == h.t * c, tt > -E.PI, tt <= E.PI), r.t == tt))


@contract("karta.geodesy.sph2cart: a unit vector at the given longitude and latitude")
def sph2cart(env):
    E = env.E
    g = env.mod("karta.geodesy")
    lon, lat = E.real("lon"), E.real("lat")
    p = E.pi()
    L, B = p * lon / 180, p * lat / 180
    T = p * (90 - lat) / 180
    x, y, z = g.sph2cart(lon, lat)
    trig(E, B)
    sB, cB = E.trig(z3.simplify(B.t))
    sL, cL = E.trig(z3.simplify(L.t))
    E.prove("x = cos lat cos lon", x == SNum(cB * cL))
    E.prove("y = cos lat sin lon", y == SNum(cB * sL))
    E.prove("z = sin lat", z == SNum(sB))
