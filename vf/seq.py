"""C structs, references, typed conversions and the CoordString of the
coordstring package (its contract is assumed, see TRUST)."""
import z3
from fractions import Fraction
from . import sym
from .sym import SNum, SBool, NaN, NAN, Unsupported, const, If

TRUST = ("coordstring.CoordString (compiled dependency): len(cs), cs.length, cs.rank, cs.ring, getX/getY/getZ(i) and "
         "coords[i*rank+c] give the stored coordinates; getX(len) of a ring is the first vertex")


class Poison(object):
    """an unbound variable"""
    def __init__(self, why="unbound variable"):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of " + object.__getattribute__(self, "why"))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __bool__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __getitem__ = __call__ = __iter__ = __len__ = __neg__ = _bad
    __getattr__ = __abs__ = __index__ = __setitem__ = _bad
    __hash__ = object.__hash__


def struct(name, fields):
    from .loader import coercible

    class S(object):
        __slots__ = tuple(f for _, f in fields)
        _fields = tuple(f for _, f in fields)
        _types = dict((f, t) for t, f in fields)

        def __init__(self, *a, **k):
            for i, f in enumerate(self._fields):
                v = a[i] if i < len(a) else k.get(f, None)
                object.__setattr__(self, f, Poison("unset field %s" % f) if v is None else co(self._types[f], v))

        def __setattr__(self, f, v):
            if f not in self._fields:
                raise AttributeError(f)
            object.__setattr__(self, f, co(self._types[f], v))

        def _copy(self):
            r = S.__new__(S)
            for f in self._fields:
                object.__setattr__(r, f, getattr(self, f))
            return r

        def __repr__(self):
            return "%s(%s)" % (name, ", ".join(str(getattr(self, f)) for f in self._fields))
    S.__name__ = name
    return S


def co(ty, v):
    """conversion on assignment to a C variable of type ty"""
    from .loader import INT_T, FLT_T
    if isinstance(v, Poison):
        return v
    if ty in FLT_T:
        if isinstance(v, SNum):
            return SNum(sym.term(v, True))
        if isinstance(v, SBool):
            return SNum(sym.term(v, True))
        if isinstance(v, (NaN, float, Fraction)):
            return v
        if hasattr(v, "_scalar"):
            return co(ty, v._scalar())
        if v is None:
            raise TypeError("a float is required")
        return float(v)
    if ty in INT_T:
        if isinstance(v, (SNum, SBool)):
            return sym.E.trunc(v)
        if isinstance(v, NaN):
            raise ValueError("NaN to integer")
        if hasattr(v, "_scalar"):
            return co(ty, v._scalar())
        return int(v)
    if hasattr(v, "_copy"):
        return v._copy()
    return v


class Ref(object):
    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return self.v

    def __setitem__(self, i, v):
        self.v = co("double", v)


def ref(loc, name):
    return Ref(loc.get(name, Poison(name)))


class Flat(object):
    """cs.coords: the flat coordinate array"""
    def __init__(self, cs):
        self.cs = cs

    def __getitem__(self, i):
        cs = self.cs
        r = cs.rank
        c = const(i)
        if c is not None and isinstance(const(cs.length), int):
            return cs.at(c // r, c % r)
        # i = q*r + d
        if c is not None:
            return cs.at(c // r, c % r)
        t = z3.simplify(sym.term(i))
        for d in range(r):
            q = z3.simplify((t - d) / r)
            ok = sym.E.solver.check(t != q * r + d) == z3.unsat
            if ok:
                return cs.at(SNum(q), d)
        raise Unsupported("flat index that is not a multiple of the rank plus a constant")


class CoordString(object):
    """n vertices; the coordinate functions are uninterpreted (symbolic n) or
    lists of values (concrete n)"""
    def __init__(self, coords=None, ring=False, n=None, rank=2, name=None, vals=None, fn=None):
        if coords is not None:
            n, rank, vals, fn = vertices_of(coords)
        self.length = n
        self.rank = rank
        self.ring = ring
        self.vals = vals
        self.fn = fn
        self.name = name
        self.coords = Flat(self)
        if sym.E is not None:
            sym.E.trusted.add(TRUST)

    @staticmethod
    def fresh(name, n, rank=2, ring=False):
        """arbitrary vertices; n symbolic or concrete"""
        c = const(n)
        if c is not None:
            vals = [tuple(sym.E.real("%s%d_%d" % (name, i, d)) for d in range(rank)) for i in range(c)]
            return CoordString(n=c, rank=rank, ring=ring, vals=vals, name=name)
        fs = [z3.Function("%s_%d" % (name, d), z3.IntSort(), z3.RealSort()) for d in range(rank)]
        return CoordString(n=n, rank=rank, ring=ring, name=name, fn=lambda i, d: SNum(fs[d](sym.term(i))))

    def _len(self):
        return self.length

    def _itercount(self):
        return self.length

    def item(self, k):
        return tuple(self.at(k, d) for d in range(self.rank))

    def __len__(self):
        c = const(self.length)
        if c is None:
            raise Unsupported("len of a symbolic CoordString")
        return c

    def at(self, i, d):
        if self.vals is not None:
            c = const(i)
            if c is None:
                r = None
                for j in range(len(self.vals) - 1, -1, -1):
                    r = self.vals[j][d] if r is None else If(i == j, self.vals[j][d], r)
                return r
            if not -len(self.vals) <= c < len(self.vals):
                raise IndexError("CoordString index")
            return self.vals[c][d]
        return self.fn(i, d)

    def wrap(self, i):
        """index as accepted by getX: a ring also has vertex number n"""
        if self.ring:
            c, n = const(i), const(self.length)
            if c is not None and n is not None:
                return c % n if n else c
            return sym.E.simp(If(i == self.length, 0, i))
        return i

    def get(self, i, d):
        i = self.wrap(i)
        if self.vals is None:
            # the index must be in range (an obligation of the caller)
            sym.E.inrange(i, self.length)
        return self.at(i, d)

    def getX(self, i):
        return self.get(i, 0)

    def getY(self, i):
        return self.get(i, 1)

    def getZ(self, i):
        return self.get(i, 2)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.vals is not None:
                return self.vals[i]
            from .npshim import slice_
            from .sseq import SSeq
            st, ln, step = slice_(i, self.length)
            return SSeq(ln, lambda k: self.item(st + k * step), True)
        c = const(i)
        if c is not None:
            if self.vals is not None:
                return tuple(self.vals[c])
            sym.E.inrange(c if c >= 0 else self.length + c, self.length)
            return self.item(self.length + c if c < 0 else c)
        i = sym.E.simp(If(i < 0, i + self.length, i))
        if self.vals is None:
            sym.E.inrange(i, self.length)
        return self.item(i)

    def __setitem__(self, i, v):
        c = const(i)
        v = tuple(v)
        if len(v) != self.rank:
            raise ValueError("vertex of another rank")
        if self.vals is not None and c is not None:
            self.vals[c] = v
            return
        if sym.E.depth:
            raise Unsupported("vertex assigned in a symbolic loop")
        n = self.length
        if self.vals is not None:
            self.vals = [tuple(If(i == j, v[d], w[d]) for d in range(self.rank)) for j, w in enumerate(self.vals)]
            return
        i = sym.E.simp(If(i < 0, i + n, i))
        sym.E.inrange(i, n)
        old = self.fn

        def fn(j, d):
            e = const(d)
            if e is None:
                raise Unsupported("symbolic coordinate number")
            return If(j == i, v[e], old(j, e))
        self.fn = fn

    def __iter__(self):
        if self.vals is None:
            raise Unsupported("iteration over a symbolic CoordString")
        return iter(self.vals)

    def asarray(self):
        from .npshim import FArr
        at = self.at
        if self.vals is not None:
            v = list(self.vals)

            def at(i, d):
                c, e = const(i), const(d)
                if c is not None and e is not None:
                    return v[c][e]
                r = None
                for j in range(len(v)):
                    for q in range(self.rank):
                        r = v[j][q] if r is None else If(sym.And(i == j, d == q), v[j][q], r)
                return r
            return FArr((self.length, self.rank), at, "float64")
        fn, rank = self.fn, self.rank

        def g(i, d):
            e = const(d)
            if e is not None:
                return fn(i, e)
            r = fn(i, rank - 1)
            for q in range(rank - 1):
                r = If(d == q, fn(i, q), r)
            return r
        return FArr((self.length, rank), g, "float64")

    def vectors(self, drop_z=False):
        a = self.asarray()
        return tuple(a[:, d] for d in range(2 if drop_z else self.rank))


def vertices_of(coords):
    """n, rank, values, element function"""
    from .npshim import FArr
    from .sseq import SSeq
    if isinstance(coords, CoordString):
        return coords.length, coords.rank, None if coords.vals is None else list(coords.vals), coords.fn
    if isinstance(coords, FArr):
        if coords.ndim == 1 and const(coords.shape[0]) == 0:
            return 0, 2, [], None
        if coords.ndim != 2:
            raise ValueError("vertices must be a two-dimensional array")
        rank, n = const(coords.shape[1]), const(coords.shape[0])
        if rank not in (2, 3):
            raise ValueError("non 2,3-rank coordinates not supported")
        f = coords.snapshot()
        if n is not None:
            return n, rank, [tuple(f(i, d) for d in range(rank)) for i in range(n)], None
        return coords.shape[0], rank, None, f
    if isinstance(coords, SSeq):
        n = const(coords.n)
        if n is None:
            probe = sym.E.merge(lambda: tuple(coords.f(sym.E.fresh("probe", "int"))))
            rank = len(probe)

            def fn(i, d):
                v = coords.f(i)
                return v[d]
            return coords.n, rank, None, fn
        coords = [coords.f(i) for i in range(n)]
    vals = [tuple(c) for c in coords]
    rank = len(vals[0]) if vals else 2
    if any(len(v) != rank for v in vals):
        raise ValueError("coordinates of different rank")
    if rank not in (2, 3):
        raise ValueError("non 2,3-rank coordinates not supported")
    return len(vals), rank, vals, None


def repeat(o, n):
    raise Unsupported("repetition by a symbolic count")
