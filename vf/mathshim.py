"""math and libc.math over symbolic values."""
import math, types
from fractions import Fraction
from . import sym
from .sym import SNum, SBool, NaN, NAN, Unsupported, const

UF = ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "atanh", "log", "exp", "log10", "log2")


class Pi(object):
    pass


def lift(name, c=False):
    real = getattr(math, name)

    def f(*a):
        if any(hasattr(x, "_fn") for x in a):
            from . import npshim
            return npshim.ew(f, *a)
        if any(isinstance(x, NaN) for x in a):
            return NAN
        if any(isinstance(x, (SNum, SBool)) for x in a):
            return sym.E.uf(name, *a)
        if name == "sin" and a[0] == 0 or name in ("atan", "asin", "tan", "sinh") and a[0] == 0:
            return 0.0
        try:
            return real(*[float(x) for x in a])
        except ValueError:
            if c:
                return NAN
            raise
    f.__name__ = name
    return f


def sqrt(v, c=False):
    if hasattr(v, "_fn"):
        from . import npshim
        return npshim.ew(sqrt, v)
    return sym.E.sqrt(v, c)


def floor(v):
    if isinstance(v, SNum):
        return v.__floor__()
    return math.floor(v)


def ceil(v):
    if isinstance(v, SNum):
        return v.__ceil__()
    return math.ceil(v)


def fmin(a, b):
    return sym.smin(a, b)


def fmax(a, b):
    return sym.smax(a, b)


def isnan(v):
    return sym.isnan(v)


def hypot(a, b):
    return sqrt(a * a + b * b)


class _Mod(types.ModuleType):
    def __getattr__(self, a):
        if a in ("pi", "M_PI"):
            return sym.E.pi() if sym.E is not None and sym.E.symbolic_pi else math.pi
        if a == "M_PI_2":
            return sym.E.pi() / 2 if sym.E is not None and sym.E.symbolic_pi else math.pi / 2
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("math.%s" % a)


def module():
    m = _Mod("math")
    for n in UF:
        setattr(m, n, lift(n))
    m.sqrt = sqrt
    m.floor, m.ceil, m.isnan, m.hypot = floor, ceil, isnan, hypot
    m.fabs = abs
    m.degrees = lambda r: r * 180.0 / m.pi
    m.radians = lambda d: d * m.pi / 180.0
    m.inf = float("inf")
    m.nan = NAN
    m.isinf = lambda v: False if isinstance(v, (SNum, NaN)) else math.isinf(v)
    return m


def cmodule():
    m = _Mod("libc.math")
    for n in UF:
        setattr(m, n, lift(n, True))
    m.sqrt = lambda v: sqrt(v, True)
    m.fabs = abs
    m.fmin, m.fmax, m.isnan, m.floor, m.ceil = fmin, fmax, isnan, floor, ceil
    m.NAN = NAN
    m.INFINITY = float("inf")
    return m
