"""P16: the winding number loop of contains."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term
from vf.seq import CoordString


def case(m):
    n = 0
    pts = []
    while "P%d_0" % n in m:
        pts.append([m["P%d_0" % n], m["P%d_1" % n]])
        n += 1
    return None


@contract("karta.vector.contains.contains: true iff the signed crossings of the ray to the right of the point do not cancel",
          sizes=(1, 3, 4))
def winding(env):
    E = env.E
    mod = env.mod("karta.vector.contains")
    n = env.n("n", 1)
    px, py = E.real("px"), E.real("py")
    rank = 2 + E.choose(2)
    cs = CoordString.fresh("P", n, rank=rank, ring=True)

    def V(i, d):
        return cs.at(cs.wrap(i), d)

    W = z3.Function("W", z3.IntSort(), z3.IntSort())

    def cross(i):
        """signed crossing of edge i: +1 upward, -1 downward, strictly right of the point"""
        x0, y0, x1, y1 = V(i, 0), V(i, 1), V(i + 1, 0), V(i + 1, 1)
        up = And(y0 <= py, py < y1)
        down = And(y1 <= py, py < y0)
        # abscissa of the crossing, compared without dividing
        num = (x0 - px) * (y1 - y0) + (py - y0) * (x1 - x0)      # (xc - px) * (y1 - y0)
        return If(And(up, num > 0), 1, If(And(down, num < 0), -1, 0))

    def w(k):
        if isinstance(k, int):
            t = 0
            for i in range(k):
                t = t + cross(i)
            return t
        # W(k+1) = W(k) + cross(k), used one step at a time
        t = z3.simplify(term(k))
        E.add(z3.Implies(t >= 1, W(t) == W(z3.simplify(t - 1)) + term(cross(k - 1))))
        E.add(W(z3.IntVal(0)) == 0)
        return SNum(W(t))

    E.ghosts = {"X": lambda k: V(k, 0), "Y": lambda k: V(k, 1), "W": w}
    r = bool(mod.contains(px, py, cs))
    total = w(n)
    E.prove("contained iff the winding number is not zero", total != 0 if r else total == 0)


@contract("karta.vector.contains.contains: refuses a string that is not a ring")
def notring(env):
    E = env.E
    mod = env.mod("karta.vector.contains")
    cs = CoordString.fresh("P", E.int("n", 1), ring=False)
    try:
        mod.contains(E.real("px"), E.real("py"), cs)
        ok = False
    except TypeError:
        ok = True
    E.prove("TypeError", ok)
