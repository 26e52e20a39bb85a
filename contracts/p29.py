"""P29: the bracketing root finder."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term

ASSUME = ["the function is deterministic (equal arguments give equal values) and total on the interval",
          "partial correctness: the number of iterations is limited by the code itself (RuntimeError)"]


def opp(u, v):
    return Or(And(u > 0, v < 0), And(u < 0, v > 0))


def setup(E):
    F = z3.Function("F", z3.RealSort(), z3.RealSort())
    calls = []

    def f(x):
        r = SNum(F(z3.simplify(term(x, True))))
        calls.append((x, r))
        return r
    return f, (lambda x: SNum(F(z3.simplify(term(x, True))))), calls


@contract("karta.geodesy.fzero_brent: a root, or within the tolerance of a change of sign, inside the interval", abs_all=True, inv_timeout=600, loose_div=True, weak=True, merge_ifs=True)
def brent(env):
    E = env.E
    mod = env.mod("karta.geodesy")
    f, F, calls = setup(E)
    lo, hi, tol = E.real("a"), E.real("b"), E.real("tol")
    inside = lambda x: Or(And(lo <= x, x <= hi), And(hi <= x, x <= lo))
    E.maps = {"f": F}

    def isreal(x):
        return isinstance(x, SNum) and not x.isint

    def gen(loop, lv, env_, k):
        vs = [(i, x) for i, x, e in lv if isreal(x) or isinstance(x, (float,))]
        for i, x in vs:
            yield ("in", i), lambda x=x: inside(x)
        for a, (i, x) in enumerate(vs):
            for j, y in vs[a + 1:]:
                yield ("opp", i, j), lambda x=x, y=y: opp(x, y)
                yield ("fopp", i, j), lambda x=x, y=y: opp(F(x), F(y))
    E.invs = {"bracket": gen}
    fa, fb = F(lo), F(hi)
    try:
        r = mod.fzero_brent(lo, hi, f, tol)
    except ValueError as x:
        E.prove("refused only when the ends have the same sign", Or(And(fa > 0, fb > 0), And(fa < 0, fb < 0)))
        return
    except RuntimeError:
        E.prove("gives up only on a bracketed root", opp(fa, fb))
        return
    E.prove("not refused only with a change of sign or a root at an end", Or(opp(fa, fb), fa == 0, fb == 0))
    E.prove("inside the interval", inside(r))
    E.prove("an end that is a root is returned", Implies(Or(fa == 0, fb == 0), And(F(r) == 0, Or(r == lo, r == hi))))
    near = [And(F(r) == 0)]
    for x, y in calls:
        near.append(And(x - r < tol, r - x < tol, inside(x), opp(y, F(r))))
    E.prove("a root, or within the tolerance of a change of sign", Or(*near))
