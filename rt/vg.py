"""Vector helpers of the run-time contracts (exact where the inputs are dyadic)."""
import math
from fractions import Fraction as F
import numpy as np
from core import *
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def fr(p):
    return tuple(F(v) for v in p)


def on_segment(p, a, b):
    p, a, b = fr(p[:2]), fr(a[:2]), fr(b[:2])
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def winding(p, ring):
    """exact winding number; None on the boundary"""
    p = fr(p[:2])
    w = 0
    R = [fr(q[:2]) for q in ring]
    for a, b in zip(R, R[1:] + R[:1]):
        if on_segment(p, a, b):
            return None
        if a[1] <= p[1] < b[1]:
            if orient(a, b, p) > 0:
                w += 1
        elif b[1] <= p[1] < a[1]:
            if orient(a, b, p) < 0:
                w -= 1
    return w


def segdist(p, a, b):
    ax, ay, bx, by, x, y = [F(v) for v in (a[0], a[1], b[0], b[1], p[0], p[1])]
    L = (bx - ax) ** 2 + (by - ay) ** 2
    t = F(0) if L == 0 else max(F(0), min(F(1), ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / L))
    dx, dy = x - ax - t * (bx - ax), y - ay - t * (by - ay)
    return sqrtf(dx * dx + dy * dy)


def sqrtf(q):
    """square root of a non-negative Fraction, to double accuracy"""
    if q == 0:
        return 0.0
    e = max(0, 120 - (q.numerator.bit_length() - q.denominator.bit_length()))
    e += e & 1
    return math.ldexp(math.isqrt((q.numerator << e) // q.denominator), -(e // 2)) if e < 2000 else math.sqrt(q)


def proper(a, b, c, d):
    """the open segments cross at one interior point (exact)"""
    a, b, c, d = map(fr, (a[:2], b[:2], c[:2], d[:2]))
    return orient(a, b, c) * orient(a, b, d) < 0 and orient(c, d, a) * orient(c, d, b) < 0


def touch(a, b, c, d):
    """the closed segments share a point (exact)"""
    a, b, c, d = map(fr, (a[:2], b[:2], c[:2], d[:2]))
    if proper(a, b, c, d):
        return True
    return on_segment(a, c, d) or on_segment(b, c, d) or on_segment(c, a, b) or on_segment(d, a, b)


def crosspoint(a, b, c, d):
    a, b, c, d = map(fr, (a[:2], b[:2], c[:2], d[:2]))
    r = (b[0] - a[0], b[1] - a[1])
    s = (d[0] - c[0], d[1] - c[1])
    q = (c[0] - a[0], c[1] - a[1])
    t = (q[0] * s[1] - q[1] * s[0]) / (r[0] * s[1] - r[1] * s[0])
    return a[0] + t * r[0], a[1] + t * r[1]


def segs(verts, ring):
    z = list(zip(verts[:-1], verts[1:]))
    if ring:
        z.append((verts[-1], verts[0]))
    return z


def gen_pts(rng, n, rank=2, lo=-8, hi=8, bits=2):
    return [[dy(rng, lo, hi, bits) for _ in range(rank)] for _ in range(n)]


def star(rng, n, cx=0., cy=0., R=8., bits=6):
    """simple polygon: star-shaped around (cx, cy), counter-clockwise, dyadic"""
    for _ in range(50):
        th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if max((b - a) % (2 * math.pi) for a, b in zip(th, th[1:] + th[:1])) > 3.0 and n > 2:
            continue
        s = 1 << bits
        P = [[round((cx + R * rng.uniform(.3, 1) * math.cos(t)) * s) / s, round((cy + R * rng.uniform(.3, 1) * math.sin(t)) * s) / s] for t in th]
        if is_simple(P, True):
            return P
    return [[cx, cy], [cx + R, cy], [cx + R, cy + R]]


def is_simple(P, ring):
    S = segs([tuple(p) for p in P], ring)
    n = len(S)
    if any(a == b for a, b in S):
        return False
    for i in range(n):
        for j in range(i + 1, n):
            adj = (j == i + 1) or (ring and i == 0 and j == n - 1)
            if adj:
                a, b = S[i]
                c, d = S[j]
                if b == c:
                    far, base, o = d, (a, b), a
                else:
                    far, base, o = c, (a, b), b
                if on_segment(far, *base) or on_segment(o, c, d):
                    return False
            elif touch(S[i][0], S[i][1], S[j][0], S[j][1]):
                return False
    return True


def walk_line(rng, n, lo=-8, hi=8, bits=2):
    for _ in range(60):
        P = gen_pts(rng, n, 2, lo, hi, bits)
        if is_simple(P, False):
            return P
    return gen_pts(rng, 2, 2, lo, hi, bits)


def verts(g):
    return [tuple(float(v) for v in p) for p in g.vertices()]


def pclose(p, q, tol=1e-9, scale=1.0):
    return all(abs(float(a) - float(b)) <= tol * max(1.0, scale, abs(float(b))) for a, b in zip(p, q))
