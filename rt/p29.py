"""P29: bracketing root finder."""
from core import *
from karta.geodesy import fzero_brent


def gen(rng):
    k = rng.choice(["lin", "cubic", "exp", "step", "atan", "poly", "flat", "tiny"])
    a, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
    return {"k": k, "a": a, "b": b, "r": rng.choice([a, b, (a + b) / 2, rng.uniform(min(a, b), max(a, b)), rng.uniform(-9, 9)]), "s": rng.choice([1., -1., 1e-6, 1e6, -1e-9]),
            "tol": rng.choice([1e-12, 1e-9, 1e-6, 1e-3])}


def fn(c):
    r, s, k = c["r"], c["s"], c["k"]
    if k == "lin":
        return lambda x: s * (x - r)
    if k == "cubic":
        return lambda x: s * (x - r) ** 3
    if k == "exp":
        return lambda x: s * (math.exp(x - r) - 1)
    if k == "step":
        return lambda x: s * (1.0 if x >= r else -1.0)
    if k == "atan":
        return lambda x: s * math.atan(1e3 * (x - r))
    if k == "poly":
        return lambda x: s * (x - r) * ((x - 1) ** 2 + .01) * (x + 2)
    if k == "flat":
        return lambda x: s * (max(0, x - r - .1) + min(0, x - r + .1))
    return lambda x: s * (x - r) * 1e-12


def check(c):
    f, a, b, tol = fn(c), c["a"], c["b"], c["tol"]
    fa, fb = f(a), f(b)
    if fa * fb > 0:
        raises(ValueError, fzero_brent, a, b, f, tol)
        return
    if fa != 0 and fb != 0 and fa * fb == 0:
        raise Skip      # underflow
    r = fzero_brent(a, b, f, tol)
    ensure(min(a, b) <= r <= max(a, b), "root %r outside [%r, %r]", r, a, b)
    if fa == 0 or fb == 0:
        ensure(r in (a, b) and f(r) == 0, "an end is a root, but %r is returned", r)
    if f(r) == 0:
        return
    lo, hi = max(min(a, b), r - tol), min(max(a, b), r + tol)
    ensure(f(lo) * f(r) <= 0 or f(hi) * f(r) <= 0, "no sign change within %r of %r", tol, r)


CLAUSES = [Clause("root", "the result is in the bracket and is a root or within tolerance of a sign change; unbracketed intervals are refused; ends that are roots are returned",
                  gen, check, quick=16000, thorough=500000)]
