"""Tables of any number of rows."""
import z3
from vf.sym import SNum
from vf.sseq import SSeq

F = ("a", "b", "c")


def rows(env, tag, width, n=None):
    """any number of rows of that many values"""
    E = env.E
    n = env.n(tag + "_n") if n is None else n
    fs = [z3.Function("%s_%d" % (tag, j), z3.IntSort(), z3.RealSort()) for j in range(width)]

    def val(k, j):
        return SNum(fs[j](z3.IntVal(k) if isinstance(k, int) else k.t))
    data = SSeq(n, lambda k: tuple(val(k, j) for j in range(width)), True)
    if env.size is not None:
        data = [tuple(val(k, j) for j in range(width)) for k in range(env.size)]
    return n, val, data


def count(d):
    return d.n if isinstance(d, SSeq) else len(d)
