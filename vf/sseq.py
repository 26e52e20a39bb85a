"""Sequences of symbolic length: the element is a function of its index.

Comprehensions and generator expressions over a symbolic iterable become such
sequences; sums over them are related to the ghost functions of the contract by
induction, any/all/min/max by a witness and a fact for all indices that is
instantiated where the contract asks for it."""
import z3
from fractions import Fraction
from . import sym
from .sym import SNum, SBool, Unsupported, const, term, tbool, And, Implies, Not


class SSeq(object):
    def __init__(self, n, f, lst=False):
        self.n, self.f, self.lst = n, f, lst

    def item(self, k):
        return self.f(k)

    def _itercount(self):
        return self.n

    def _len(self):
        return self.n

    def __len__(self):
        c = const(self.n)
        if c is None:
            raise Unsupported("len of a symbolic sequence")
        return c

    def __iter__(self):
        c = const(self.n)
        if c is None:
            raise Unsupported("native iteration over a symbolic sequence")
        return iter([self.f(k) for k in range(c)])

    def __next__(self):
        raise Unsupported("next of a symbolic generator")

    def __getitem__(self, i):
        from .npshim import slice_, index_
        if isinstance(i, slice):
            st, ln, step = slice_(i, self.n)
            return SSeq(ln, lambda k: self.f(st + k * step), self.lst)
        return self.f(index_(i, self.n))

    def __add__(self, o):
        o = toseq(o)
        if o is None:
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o):
        o = toseq(o)
        return NotImplemented if o is None else concat(o, self)

    def append(self, v):
        """only on a list nothing else refers to: the loop rule forbids it in loops"""
        n, f = self.n, self.f
        self.f = lambda k: pick(k < n, lambda: f(k), lambda: v)
        self.n = n + 1

    def extend(self, o):
        r = concat(SSeq(self.n, self.f), toseq(o))
        self.n, self.f = r.n, r.f

    def copy(self):
        return SSeq(self.n, self.f, self.lst)

    def __setitem__(self, i, v):
        from .npshim import index_
        if isinstance(i, slice):
            raise Unsupported("a slice of a symbolic list is set")
        i, f = index_(i, self.n), self.f
        self.f = lambda k: pick(k == i, lambda: v, lambda: f(k))

    def __delitem__(self, i):
        from .npshim import index_
        if isinstance(i, slice):
            raise Unsupported("a slice of a symbolic list is deleted")
        i, f = index_(i, self.n), self.f
        self.n = self.n - 1
        self.f = lambda k: pick(k < i, lambda: f(k), lambda: f(k + 1))

    def __bool__(self):
        return sym.E.branch(term(self.n) > 0)


class Growing(SSeq):
    """a list kept in an object, to which a loop appends new(i) in its iteration i"""
    def __init__(self, name, n, f, new):
        SSeq.__init__(self, n, f, True)
        self.name, self.new, self.last = name, new, None
        sym.E.growing.append(self)

    def append(self, v):
        last = (self.n, self.f, v)
        SSeq.append(self, v)
        self.last = last + (self.n, self.f)

    def begin(self, k):
        n0, f0, new = self.n, self.f, self.new
        self.n = n0 + k
        self.f = lambda j: pick(j < n0, lambda: f0(j), lambda: new(j - n0))
        self.last = None
        return self.f, self.n

    def grew(self, f, n, k):
        """by the item expected and nothing else"""
        from .loops import same_item
        l = self.last
        if l is None or l[0] is not n or l[1] is not f or l[3] is not self.n or l[4] is not self.f:
            return False
        a, b = l[2], self.new(k)
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            a, b = (a,), (b,)
        return len(a) == len(b) and all(x is y or x is not None and y is not None and same_item(sym.E, x, y) for x, y in zip(a, b))


def pick(c, a, b):
    if isinstance(c, bool):
        return a() if c else b()
    t = z3.simplify(tbool(c))
    if z3.is_true(t):
        return a()
    if z3.is_false(t):
        return b()
    if sym.E.branch(t):
        return a()
    return b()


def toseq(o):
    if isinstance(o, SSeq):
        return o
    if isinstance(o, (list, tuple)):
        l = list(o)

        def f(k):
            c = const(k)
            if c is not None:
                return l[c]
            for i in range(len(l) - 1):
                if sym.E.branch(term(k) == i):
                    return l[i]
            return l[-1]
        return SSeq(len(l), f)
    n = count(o)
    if n is None:
        return None
    return SSeq(n, o.item)


def concat(a, b):
    n, fa, fb = a.n, a.f, b.f
    r = SSeq(n + b.n, lambda k: pick(k < n, lambda: fa(k), lambda: fb(k - n)), True)
    r.parts = parts(a) + [(n + st, ln, f) for st, ln, f in parts(b)]
    return r


def parts(s):
    """(start, length, element function of the offset) of the pieces of a sequence"""
    return getattr(s, "parts", None) or [(0, count(s), s.item)]


def norm(it):
    """what iterating over an object of the verified code goes through"""
    t = type(it)
    if str(getattr(t, "__module__", "")).startswith("karta") and hasattr(t, "__iter__"):
        r = t.__iter__(it)
        return norm(r) if type(r) is not t else r
    return it


def count(it):
    from .loops import count
    return count(it)


def symbolic(it):
    """is the number of items symbolic"""
    n = count(it)
    return n is not None and const(n) is None


def getter(it):
    """the items as they are now"""
    if isinstance(it, SSeq):
        return it.f
    return it.item if not isinstance(it, (list, tuple, range)) else (lambda k: toseq(list(it)).f(k))


def frozen(f):
    """the function with the variables it uses as they are now: a list is made where it is written"""
    import types
    if not getattr(f, "__closure__", None):
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(c.cell_contents))
        except ValueError:
            cells.append(c)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def comp(kind, it, f, conds):
    """a comprehension"""
    it = norm(it)
    if not symbolic(it):
        g = (f(x) for x in it if all(c(x) for c in conds))
        return list(g) if kind == "list" else set(g) if kind == "set" else dict(g) if kind == "dict" else g
    if kind in ("set", "dict"):
        raise Unsupported("%s comprehension over a symbolic sequence" % kind)
    if conds:
        raise Unsupported("filtered comprehension over a symbolic sequence")
    from .npshim import simp
    get = getter(it)
    f = frozen(f)
    r = SSeq(simp(count(it)), lambda k: f(get(k)), kind == "list")
    if getattr(it, "parts", None):
        r.parts = [(st, ln, lambda k, g=g: f(g(k))) for st, ln, g in it.parts]
    return r


def generic(seq, tag):
    """an arbitrary element: index and value (branches merged)"""
    E = sym.E
    k = E.fresh(tag, "int")
    rng = z3.And(term(k) >= 0, term(k) < term(seq.n))
    return k, rng


def sum_(seq, start=0):
    E = sym.E
    if not symbolic(seq):
        r = start
        for v in seq:
            r = r + v
        return r
    n = count(seq)
    from .loops import eqv
    # the first term, and an arbitrary later one
    hits = list(E.ghosts.items())
    isint = True
    todo = []
    for i, (st, ln, f) in enumerate(parts(seq)):
        todo.append((st, ln, f, True))
        if const(ln) != 1:
            todo.append((st, ln, f, False))
    for st, ln, el, first in todo:
        E.push()
        try:
            if first:
                j = 0
                E.add(term(ln) > 0)
            else:
                j = E.fresh("i", "int")
                E.add(z3.And(term(j) >= 1, term(j) < term(ln)))
            k = st + j
            e = E.merge(lambda: el(j))
            isint = isint and (isinstance(e, int) or isinstance(e, SNum) and e.isint or isinstance(e, (bool, SBool)))
            keep = []
            for g, f in hits:
                try:
                    if E.quick_valid(eqv(f(k + 1) - f(k), e)):
                        keep.append((g, f))
                except (Unsupported, TypeError):
                    continue
            hits = keep
        except sym.PathEnd:
            pass
        finally:
            E.pop()
    S = E.fresh("sum", "int" if isint else "real")
    E.abstracted = True
    E.add(z3.Implies(term(n) <= 0, term(S) == 0))
    nn = E.simp(n)
    for g, f in hits:
        E.add(term(S, True) == term(f(nn) - f(0), True))
        E.note("sum equals ghost %s by induction over its terms" % g)
    return S + start


def any_(seq):
    E = sym.E
    n = count(seq)
    if E.choose(2) == 0:
        w = E.fresh("w", "int")
        E.assume(And(w >= 0, w < n))
        E.witness.append(w)
        if not seq.item(w):
            raise sym.PathEnd()
        return True
    E.foralls.append((n, lambda k: Not(tobool(E.merge(lambda: boolof(seq.item(k)))))))
    E.abstracted = True
    return False


def all_(seq):
    return not any_(SSeq(count(seq), lambda k: negate(seq.item(k))))


def negate(v):
    return Not(v) if isinstance(v, SBool) else not v


def boolof(v):
    return v if isinstance(v, (bool, SBool)) else bool(v)


def tobool(v):
    return SBool(tbool(v))


def extreme(seq, low):
    """min or max: attained, and a bound for every element"""
    E = sym.E
    n = count(seq)
    if not E.branch(term(n) > 0):
        raise ValueError("empty sequence")
    key = None
    if hasattr(seq, "snapshot"):
        # the same array gives the same extreme
        try:
            c = z3.Int("canon!")
            f = seq.snapshot()
            item = E.merge(lambda: f(SNum(c)))
            t, tn = z3.simplify(term(item)), z3.simplify(term(n))
            key = ("extreme", t.get_id(), tn.get_id(), low)
            keep = (t, tn)
        except Unsupported:
            key = None
    if key is not None:
        w = SNum(E.named(key + ("w",), "w", keep, sort="int"))
        isint = t.sort() == z3.IntSort()
        r = SNum(E.named(key + ("r",), "ext", keep, sort="int" if isint else "real"))
    else:
        w, r = E.fresh("w", "int"), None
    E.assume(And(w >= 0, w < n))
    known = key is not None and any(w is x or isinstance(x, SNum) and z3.eq(x.t, w.t) for x in E.witness)
    if not known:
        E.witness.append(w)
    v = seq.item(w)
    E.abstracted = True
    if r is None:
        r = E.fresh("ext", "int" if isinstance(v, SNum) and v.isint else "real")
    E.assume(r == v)
    if not known:
        E.extremes.append(r)
        # in range where the fact is used; the array as it is now
        at = seq.snapshot() if hasattr(seq, "snapshot") else seq.item
        E.foralls.append((n, lambda k: (r <= at(k)) if low else (r >= at(k))))
    return r
