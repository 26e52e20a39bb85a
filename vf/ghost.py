"""Ghost functions of contracts."""
import z3
from .sym import SNum, term


def rec(E, name, base, step, sort="real"):
    """ghost function: g(0) = base, g(k) = step(g(k-1), k-1)"""
    F = z3.Function(name, z3.IntSort(), z3.RealSort() if sort == "real" else z3.IntSort())

    def g(k):
        if isinstance(k, int):
            t = base
            for i in range(k):
                t = step(t, i)
            return t
        t = z3.simplify(term(k))
        if z3.is_int_value(t):
            return g(t.as_long())
        prev = SNum(F(z3.simplify(t - 1)))
        E.add(z3.Implies(t >= 1, F(t) == term(step(prev, SNum(z3.simplify(t - 1))), sort == "real")))
        E.add(F(z3.IntVal(0)) == term(base, sort == "real"))
        return SNum(F(t))
    return g
