"""P27: remembered results follow the geometry."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from vf.seq import CoordString

ASSUME = ["the methods behind the cache are functions of the vertices and their arguments; arguments that compare equal give equal answers",
          "spatial indexes are built on the vertices given (P14, P15)"]


@contract("karta.vector.decorators.cache_decorator: the answer is that of the function for these arguments, whatever was remembered; what is remembered stays right")
def cached(env):
    E = env.E
    dec = env.mod("karta.vector.decorators").cache_decorator
    F = z3.Function("answer", z3.IntSort(), z3.RealSort(), z3.RealSort())
    calls = []

    def code(args, kwargs):
        """the answer depends on the arguments, given by position or by name"""
        if args:
            return 1, args[0]
        if "crs" in kwargs:
            return 2, kwargs["crs"]
        return 0, 0

    def answer(args, kwargs):
        n, v = code(args, kwargs)
        return SNum(F(z3.IntVal(n), term(v, True)))

    def query(tag):
        k = E.choose(3)
        v = E.real(tag)
        return ((v,), {}) if k == 1 else ((), {"crs": v}) if k == 2 else ((), {})

    class Geom(object):
        @dec("length")
        def length(self, *args, **kwargs):
            calls.append((args, kwargs))
            return answer(args, kwargs)

        @dec("bbox")
        def bbox(self, *args, **kwargs):
            calls.append((args, kwargs))
            return answer(args, kwargs) + 1
    g = Geom()
    g._cache = {}
    # any state reached by queries: the last question and its answer under each key
    if E.choose(2):
        a, k = query("earlier")
        r = g.length(*a, **k)
        E.prove("first answer", r == answer(a, k))
    if E.choose(2):
        a, k = query("box")
        r = g.bbox(*a, **k)
        E.prove("one key does not answer for another", r == answer(a, k) + 1)
    for tag in ("now", "later"):
        a, k = query(tag)
        r = g.length(*a, **k)
        E.prove("the answer to the question asked", r == answer(a, k))
    h = Geom()
    h._cache = {}
    a, k = query("other")
    n = len(calls)
    E.prove("another geometry", h.length(*a, **k) == answer(a, k))
    E.prove("another geometry is asked itself", len(calls) == n + 1)


class Index(object):
    """a spatial index built on the vertices as they are"""
    def __init__(self, vertices, **kw):
        self.vertices, self.vals = vertices, None if vertices.vals is None else list(vertices.vals)


STALE = {"bbox": {"output": (1, 2, 3, 4), "args": (), "kwargs": {}}, "extent": {"output": (1, 3, 2, 4), "args": (), "kwargs": {}},
         "length": {"output": 7, "args": (), "kwargs": {}}}


def forgotten(g):
    """nothing from before is remembered"""
    return not any(k in STALE and v == STALE[k] for k, v in (g._cache or {}).items())


def stale(g):
    """something remembered from before"""
    g._cache = dict(STALE)


def vertices(E, cs, k):
    return tuple(cs.at(k, d) for d in range(cs.rank))


@contract("karta.vector.geometry.Line.extend: the vertices of both lines, and nothing remembered", sizes=(1, 2))
def extend(env):
    E = env.E
    m = env.mod("karta.vector.geometry")
    rank = 2 + E.choose(2)
    n, p = env.n("n", 1), env.n("p", 1)
    A, B = CoordString.fresh("A", n, rank=rank), CoordString.fresh("B", p, rank=rank)
    a, b = m.Line(A), m.Line(B)
    stale(a)
    stale(b)
    K = E.int("K", 0)
    E.assume(K < n + p)
    old = dict(b._cache)
    r = a.extend(b)
    E.prove("the line itself", r is a)
    E.prove("nothing is remembered", forgotten(a))
    E.prove("as many vertices", a._vertices.length == n + p)
    for d in range(rank):
        E.prove("every vertex", a._vertices.at(K, d) == If(K < n, A.at(K, d), B.at(K - n, d)))
    E.prove("the other line is unchanged", b._vertices is B and b._cache == old)


@contract("karta.vector.geometry.Line.extend: lines of another rank and other geometries are refused", sizes=(1,))
def extend_refused(env):
    E = env.E
    m = env.mod("karta.vector.geometry")
    n, p = env.n("n", 1), env.n("p", 1)
    k = E.choose(2)
    a = m.Line(CoordString.fresh("A", n, rank=2))
    b = m.Line(CoordString.fresh("B", p, rank=3)) if k else m.Polygon(CoordString.fresh("B", p, rank=2, ring=True))
    try:
        a.extend(b)
    except (ValueError, TypeError):
        E.prove("refused", True)
        E.prove("unchanged", a._vertices.length == n)
        return
    E.prove("refused", False)


class Rows(object):
    """a table of attributes: takes note of the row set"""
    def __init__(self, fields):
        self._fields = self.fields = fields
        self.rows = []

    def __setitem__(self, k, v):
        self.rows.append((k, v))


@contract("karta.vector.geometry.Multipoint.__setitem__: the vertex given at that place, nothing remembered, the index built anew", sizes=(1, 2, 3))
def setitem(env):
    E = env.E
    m = env.mod("karta.vector.geometry")
    m.QuadTree = Index
    rank = 2 + E.choose(2)
    n = env.n("n", 1)
    A = CoordString.fresh("A", n, rank=rank)
    old = A.asarray().snapshot()
    data = object.__new__(m.Table)
    data.__class__ = m.Table
    g = m.Multipoint(A, data=data, build_index=bool(E.choose(2)))
    g.data = Rows(("a", "b"))
    stale(g)
    k = E.int("k", 0) if env.size is None else E.choose(env.size)
    E.assume(k < n)
    v = tuple(E.real("v%d" % d) for d in range(rank))
    K = E.int("K", 0) if env.size is None else E.choose(env.size)
    E.assume(K < n)
    point = E.choose(2)
    g[k] = m.Point(v, properties={"a": 5}) if point else v
    c = g._vertices
    E.prove("as many vertices", And(c.length == n, c.rank == rank))
    for d in range(rank):
        E.prove("the vertex given, the others unchanged", c.at(K, d) == If(K == k, v[d], old(K, d)))
    E.prove("nothing is remembered", forgotten(g))
    E.prove("one row of data is set", And(len(g.data.rows) == 1, g.data.rows[0][0] == k, tuple(g.data.rows[0][1]) == ((5, None) if point else (None, None))))
    if hasattr(g, "quadtree"):
        E.prove("indexed by the new vertices", g.quadtree.vertices is c)
