"""Builtins and C arithmetic of the symbolically executed modules."""
import builtins, numbers
from fractions import Fraction
from . import sym
from .sym import SNum, SBool, NaN, NAN, Unsupported, const, smin, smax


def issym(v):
    return isinstance(v, (SNum, SBool, NaN))


class IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or isinstance(o, SNum) and o.isint

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class Int(metaclass=IntMeta):
    def __new__(cls, v=0, *a):
        if isinstance(v, (SNum, SBool, NaN)):
            return sym.E.trunc(v)
        if hasattr(v, "_scalar"):
            return Int(v._scalar())
        if isinstance(v, Fraction):
            return int(v)
        return int(v, *a)


class FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Fraction, NaN)) or isinstance(o, SNum) and not o.isint

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class Float(metaclass=FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, (SNum, SBool, NaN, Fraction)):
            return sym.E.tofloat(v)
        if hasattr(v, "_scalar"):
            return Float(v._scalar())
        if hasattr(v, "_float"):
            return v._float()
        if isinstance(v, str) and v.strip() in sym.E.strnums:
            return sym.E.strnums[v.strip()]
        return float(v)


class BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SBool))


class Bool(metaclass=BoolMeta):
    def __new__(cls, v=False):
        if isinstance(v, SBool):
            return v
        if isinstance(v, SNum):
            return SBool(v.t != 0)
        return bool(v)


def isinstance_(o, t):
    if isinstance(t, tuple):
        return any(isinstance_(o, x) for x in t)
    if t in (numbers.Number, numbers.Real, numbers.Complex):
        return isinstance(o, (t, SNum, NaN, SBool))
    if t in (numbers.Integral, numbers.Rational):
        return isinstance(o, t) or isinstance(o, SNum) and o.isint
    if t is object:
        return True
    if not isinstance(t, type) and not hasattr(type(t), "__instancecheck__"):
        if type(t).__name__ == "StubObj":
            return False
        return False
    return isinstance(o, t)


def abs_(v):
    return abs(v)


def _red(args, key, default, f, name):
    if len(args) == 1:
        from . import sseq
        if sseq.symbolic(args[0]):
            if key is not None:
                raise Unsupported("min or max with a key over a symbolic sequence")
            return sseq.extreme(args[0], name == "min")
        args = list(args[0])
    if not args:
        if default is not None:
            return default
        raise ValueError("%s() arg is an empty sequence" % name)
    if key is not None:
        best = args[0]
        for a in args[1:]:
            c = (key(a) < key(best)) if name == "min" else (key(a) > key(best))
            if c:
                best = a
        return best
    if hasattr(args[0], "_min"):
        best = args[0]
        for a in args[1:]:
            best = getattr(best, "_" + name)(a)
        return best
    if not any(issym(a) for a in args):
        return (min if name == "min" else max)(args)
    if all(isinstance(a, (SNum, int, float, Fraction)) for a in args):
        r = args[0]
        for a in args[1:]:
            r = f(r, a)
        return r
    best = args[0]
    for a in args[1:]:
        if (a < best) if name == "min" else (a > best):
            best = a
    return best


def min_(*args, key=None, default=None):
    return _red(args, key, default, smin, "min")


def max_(*args, key=None, default=None):
    return _red(args, key, default, smax, "max")


def round_(v, n=None):
    if isinstance(v, SNum):
        return sym.E.round(v, n)
    return round(v) if n is None else round(v, n)


def len_(v):
    f = getattr(v, "_len", None)
    if f is not None and not isinstance(v, type):
        return f()
    m = getattr(type(v), "__len__", None)
    if m is not None and getattr(type(v), "__module__", "").startswith("karta"):
        r = m(v)
        return r
    return len(v)


class SymRange(object):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        """number of items (step is a concrete nonzero integer)"""
        st = const(self.step)
        if st is None or st == 0:
            raise Unsupported("range with a symbolic step")
        d = self.stop - self.start
        if st == 1:
            n = d
        elif st > 0:
            n = sym.E.floordiv(d + (st - 1), st)
        else:
            n = sym.E.floordiv(-d + (-st - 1), -st)
        return smax(n, 0)

    def item(self, k):
        return self.start + k * self.step

    def _len(self):
        return self.count()

    def __iter__(self):
        n = const(self.count())
        if n is None:
            raise Unsupported("iteration over a symbolic range outside the loop rule")
        return iter([self.item(k) for k in range(n)])

    def __contains__(self, v):
        raise Unsupported("membership in a symbolic range")


def range_(*a):
    if any(isinstance(x, SNum) for x in a):
        cs = [const(x) for x in a]
        if all(isinstance(c, int) for c in cs):
            return range(*cs)
        if len(a) == 1:
            return SymRange(0, a[0])
        return SymRange(*a)
    return range(*a)


def sum_(it, start=0):
    from . import sseq
    it = sseq.norm(it)
    if sseq.symbolic(it):
        from . import npshim
        if isinstance(it, npshim.FArr) and it.ndim == 1 and it.dtype.kind == "b":
            return npshim.Sel.of(it).count + start
        return sseq.sum_(it, start)
    r = start
    for v in it:
        r = r + v
    return r


def sorted_(it, key=None, reverse=False):
    import functools
    l = list(it)

    def c(a, b):
        x, y = (key(a), key(b)) if key else (a, b)
        if x < y:
            return -1
        if y < x:
            return 1
        return 0
    return sorted(l, key=functools.cmp_to_key(c), reverse=reverse)


def any_(it):
    from . import sseq
    it = sseq.norm(it)
    if sseq.symbolic(it):
        return sseq.any_(it)
    for v in it:
        if v:
            return True
    return False


def all_(it):
    from . import sseq
    it = sseq.norm(it)
    if sseq.symbolic(it):
        return sseq.all_(it)
    for v in it:
        if not v:
            return False
    return True


def zip_(*its):
    from . import sseq
    its = [sseq.norm(i) for i in its]
    if any(sseq.symbolic(i) for i in its):
        n = None
        for i in its:
            c = sseq.count(i)
            if c is None:
                raise Unsupported("zip with an iterator")
            n = c if n is None else smin(n, c)
        gs = [sseq.getter(i) for i in its]
        return sseq.SSeq(sym.E.simp(n), lambda k: tuple(g(k) for g in gs))
    return zip(*its)


def map_(f, *its):
    from . import sseq
    its = [sseq.norm(i) for i in its]
    if any(sseq.symbolic(i) for i in its):
        z = zip_(*its)
        return sseq.SSeq(z.n, lambda k: f(*z.f(k)))
    return map(f, *its)


def enumerate_(it, start=0):
    from . import sseq
    it = sseq.norm(it)
    if sseq.symbolic(it):
        g = sseq.getter(it)
        return sseq.SSeq(sseq.count(it), lambda k: (k + start, g(k)))
    return enumerate(it, start)


class ListMeta(type):
    def __instancecheck__(cls, o):
        from . import sseq
        return isinstance(o, list) or isinstance(o, sseq.SSeq) and o.lst

    def __eq__(cls, o):
        return o is list or o is cls

    def __hash__(cls):
        return hash(list)


class List(metaclass=ListMeta):
    def __new__(cls, it=()):
        from . import sseq
        it = sseq.norm(it)
        if sseq.symbolic(it):
            return sseq.SSeq(sseq.count(it), sseq.getter(it), True)
        return list(it)


def reversed_(it):
    from . import sseq
    it = sseq.norm(it)
    if sseq.symbolic(it):
        n, g = sseq.count(it), sseq.getter(it)
        return sseq.SSeq(n, lambda k: g(n - 1 - k))
    return reversed(it)


def itertools_module():
    import itertools, types
    from . import sseq
    m = types.SimpleNamespace(**{k: getattr(itertools, k) for k in dir(itertools) if not k.startswith("_")})

    class chain(object):
        def __new__(cls, *its):
            if any(sseq.symbolic(i) for i in its):
                r = None
                for i in its:
                    s = sseq.toseq(list(i) if type(i).__name__ == "generator" else i)
                    if s is None:
                        raise Unsupported("chain of an iterator")
                    r = s if r is None else sseq.concat(r, s)
                return r
            return itertools.chain(*its)
        from_iterable = itertools.chain.from_iterable
    m.chain = chain
    return m


def divmod_(a, b):
    if issym(a) or issym(b):
        return sym.E.floordiv(a, b), sym.E.mod(a, b)
    return divmod(a, b)


def pow_(a, b, m=None):
    return a ** b


def print_(*a, **k):
    pass


def hash_(v):
    return hash(v)


def table():
    return {"int": Int, "float": Float, "bool": Bool, "isinstance": isinstance_, "abs": abs_, "min": min_, "max": max_,
            "round": round_, "len": len_, "range": range_, "sum": sum_, "sorted": sorted_, "any": any_, "all": all_,
            "divmod": divmod_, "pow": pow_, "print": print_, "xrange": range_,
            "zip": zip_, "map": map_, "enumerate": enumerate_, "list": List, "reversed": reversed_}


# ---- division in .pyx modules (language level 2)
def isint(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SNum) and v.isint


def pdiv(a, b, c):
    if hasattr(a, "_fn") or hasattr(b, "_fn"):
        return a / b
    if isint(a) and isint(b):
        return pfdiv(a, b, c)
    if issym(a) or issym(b):
        return sym.E.divide(a, b, c)
    if c and b == 0:
        raise Unsupported("C division by zero")
    return a / b


def pfdiv(a, b, c):
    if isint(a) and isint(b) and c:
        q = sym.E.floordiv(a, b)
        r = a - q * b
        # truncation towards zero
        return sym.If(sym.And(sym.tbool(r != 0), sym.Or(sym.And(a < 0, b > 0), sym.And(a > 0, b < 0))), q + 1, q)
    if issym(a) or issym(b):
        return sym.E.floordiv(a, b)
    return a // b


def pmod(a, b, c):
    if isinstance(a, (str, bytes)):
        return "<msg>"
    if c:
        if isint(a) and isint(b):
            return a - pfdiv(a, b, True) * b
        if issym(a) or issym(b):
            q = sym.E.trunc(sym.E.divide(a, b, True))
            return a - q * b
        import math
        return math.fmod(a, b)
    if issym(a) or issym(b):
        return sym.E.mod(a, b)
    return a % b
