"""Shared helpers of the run-time contracts."""
import math
from fractions import Fraction


class Fail(Exception):
    pass


class Skip(Exception):
    """the case does not meet the precondition"""


def ensure(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


class Clause(object):
    """One executable contract.

    gen(rng) -> JSON-able case (one random member of the input domain)
    check(case) -> raises Fail if the real code breaks the contract;
                   returns False when the case exercised nothing
    known(case) -> name of the listed finding the case falls under, or None
    fixed: list of cases always evaluated first (corner cases)
    """

    def __init__(self, name, what, gen, check, quick=400, thorough=20000, weight=1.0,
                 known=None, fixed=()):
        self.name, self.what = name, what
        self.gen, self.check = gen, check
        self.quick, self.thorough, self.weight = quick, thorough, weight
        self.known, self.fixed = known, fixed

    def cases(self, rng, k, n):
        for i, c in enumerate(self.fixed):
            if i % n == k:
                yield c
        while True:
            yield self.gen(rng)


def dy(rng, lo=-64, hi=64, bits=3):
    """dyadic rational in [lo, hi] with `bits` fractional bits: exact in float64"""
    return rng.randint(lo << bits, hi << bits) / float(1 << bits)


def close(a, b, tol=1e-9):
    if a == b:
        return True
    try:
        if math.isnan(a) and math.isnan(b):
            return True
    except TypeError:
        pass
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def raises(exc, f, *args, **kw):
    try:
        f(*args, **kw)
    except exc:
        return True
    except Exception as e:
        raise Fail("raised %s (%s) instead of %s" % (type(e).__name__, e, exc))
    raise Fail("did not raise %s" % (exc,))
