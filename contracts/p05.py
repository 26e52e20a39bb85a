"""P05: bilinear sampling."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP


def bilinear(E, Z, u, v):
    """the bilinear interpolant of the cells of Z at row position u, column position v"""
    i, j = u.__floor__(), v.__floor__()
    a, b = u - i, v - j
    z = lambda p, q: E.tofloat(Z.at(p, q))
    if a == 0 and b == 0:
        return z(i, j)
    if a == 0:
        return z(i, j) * (1 - b) + z(i, j + 1) * b
    if b == 0:
        return z(i, j) * (1 - a) + z(i + 1, j) * a
    return z(i, j) * (1 - a) * (1 - b) + z(i + 1, j) * a * (1 - b) + z(i, j + 1) * (1 - a) * b + z(i + 1, j + 1) * a * b


def kernel(name, dt, isint):
    @contract("karta.raster.crfuncs.%s: the bilinear interpolant inside the hull of the centres, nodata outside, for every point" % name,
              abs_all=True, merge_ifs=False, strong=True, sizes=(1,))
    def con(env):
        E = env.E
        f = getattr(env.mod("karta.raster.crfuncs"), name)
        L = env.n("L", 0)
        I, J = NP.symbolic("I", (L,)), NP.symbolic("J", (L,))
        m, n = E.int("m", 2), E.int("n", 2)
        Z = NP.symbolic("Z", (m, n), dt, lo=0 if "uint" in dt else None)
        na = E.int("na", 0) if isint else E.real("na")
        k = E.int("k", 0)
        E.assume(k < L)
        E.skolem = (k,)
        i0, j0 = E.int("i0"), E.int("j0")

        def spec(s):
            u, v = I.at(s), J.at(s)
            if not And(u >= 0, u <= m - 1, v >= 0, v <= n - 1):
                return na
            b = bilinear(E, Z, u, v)
            return E.trunc(b) if isint else b
        E.arr_ghosts = {"out": spec}
        out = f(I, J, Z, na)
        E.prove("one value for each point", out.shape[0] == L)
        E.prove("its value", out.at(k) == E.merge(lambda: spec(k)))


kernel("sample_bilinear_double", "float64", False)
kernel("sample_bilinear_int", "int32", True)
kernel("sample_bilinear_uint", "uint16", True)
