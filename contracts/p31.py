"""P31: geometries as sequences of their members."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, term, const
from vf.sseq import SSeq, toseq
from vf.seq import CoordString
from contracts.recs import rows, count, F

ASSUME = ["spatial indexes are built on the vertices given (P14, P15)", "the values of tables are numbers"]
PROPS = {"name": "a", "n": 3}


class Index(object):
    def __init__(self, vertices, **kw):
        self.vertices = vertices


def module(env):
    m = env.mod("karta.vector.geometry")
    m.QuadTree = m.RTree = Index
    return m, env.mod("karta.crs").SphericalEarth


def vert(g, k):
    v = g._vertices
    return tuple(v.at(k, d) for d in range(v.rank))


def eq(a, b):
    return And(len(a) == len(b), *[x == y for x, y in zip(a, b)]) if len(a) == len(b) else False


def body(env, kind, tag="P", lo=1):
    """a line or polygon of any number of vertices"""
    E = env.E
    m, crs = module(env)
    rank = 2 + E.choose(2)
    n = env.n("n" + tag, lo)
    cs = CoordString.fresh(tag, n, rank=rank, ring=kind == "Polygon")
    return m, crs, n, cs, getattr(m, kind)(cs, properties=dict(PROPS), crs=crs)


def index(env, name, n):
    """any index, counted from either end"""
    E = env.E
    if env.size is not None:
        i = E.choose(2 * env.size) - env.size
        return i, i % env.size
    i = E.int(name)
    E.assume(And(i >= -n, i < n))
    return i, i if E.branch((i >= 0).t) else i + n


def cut(env, n):
    """any slice with a step of 1, 2 or -1: the slice, its length and the index of its elements"""
    E = env.E
    if env.size is not None:
        ends = [None, 0, 1, -1]
        s = slice(ends[E.choose(4)], ends[E.choose(4)], (None, 2, -1)[E.choose(3)])
        r = range(*s.indices(env.size))
        return s, len(r), lambda k: r[k] if isinstance(k, int) else r.start + k * r.step
    k = E.choose(4)
    if k == 0:
        return slice(None), n, lambda j: j
    a, b = E.int("start", 0), E.int("stop")
    E.assume(And(a <= b, b <= n))
    if k == 1:
        return slice(a, b), b - a, lambda j: a + j
    if k == 2:
        return slice(None, None, -1), n, lambda j: n - 1 - j
    return slice(a, None), n - a, lambda j: a + j


def some(env, name, n):
    E = env.E
    k = E.int(name, 0)
    E.assume(k < n)
    return k


@contract("karta.vector.geometry: a line or polygon at an index: the vertex there, as a point", sizes=(1, 2))
def vertex(env):
    E = env.E
    m, crs, n, cs, g = body(env, ("Line", "Polygon")[E.choose(2)])
    i, p = index(env, "i", n)
    r = g[i]
    E.prove("a point", type(r) is m.Point)
    E.prove("the vertex", eq(r._vertex, cs.item(p)))
    E.prove("properties and coordinate system", r.properties == PROPS and r.crs is crs)
    E.prove("as many members", len_(g) == n)


def len_(g):
    return g._vertices.length if hasattr(g._vertices, "length") else len(g._vertices)


@contract("karta.vector.geometry: a slice of a line or polygon: its vertices in order; a polygon only when all are kept", sizes=(2, 3))
def sliced(env):
    E = env.E
    kind = ("Line", "Polygon")[E.choose(2)]
    m, crs, n, cs, g = body(env, kind, lo=2)
    s, ln, at = cut(env, n)
    if not E.branch(term(ln) > 0 if isinstance(ln, SNum) else z3.BoolVal(ln > 0)):
        return
    r = g[s]
    E.prove("as many vertices", len_(r) == ln)
    k = some(env, "k", ln)
    E.prove("the vertices in order", eq(vert(r, k), cs.item(at(k))))
    whole = E.branch(term(ln) == term(n)) if isinstance(ln, SNum) or isinstance(n, SNum) else ln == n
    E.prove("its type", type(r) is (m.Polygon if kind == "Polygon" and whole else m.Line))
    E.prove("properties and coordinate system", r.properties == PROPS and r.crs is crs)


@contract("karta.vector.geometry: iterating a line or polygon gives its vertices in order", sizes=(1, 3))
def iterated(env):
    E = env.E
    m, crs, n, cs, g = body(env, ("Line", "Polygon")[E.choose(2)])
    it = g.__iter__()
    L = it if isinstance(it, SSeq) else list(it)
    E.prove("as many", count(L) == n)
    k = some(env, "k", n)
    r = toseq(L).f(k)
    E.prove("the vertex", type(r) is m.Point and eq(r._vertex, cs.item(k)))
    E.prove("properties and coordinate system", r.properties == PROPS and r.crs is crs)


@contract("karta.vector.geometry: the segments of a line or polygon join each vertex to the next, and the last of a polygon to the first", sizes=(2, 3))
def segments(env):
    E = env.E
    kind = ("Line", "Polygon")[E.choose(2)]
    m, crs, n, cs, g = body(env, kind, lo=2)
    poly = kind == "Polygon"
    tuples = E.choose(2)
    it = g.segment_tuples if tuples else (g.segments if not callable(g.segments) else g.segments())
    L = it if isinstance(it, SSeq) else list(it)
    total = n if poly else n - 1
    E.prove("as many", count(L) == total)
    k = some(env, "k", total)
    r = toseq(L).f(k)
    if tuples:
        # a polygon's begin with the one that closes it
        a, b = (k - 1, k) if poly else (k, k + 1)
        a = If(a < 0, n - 1, a) if isinstance(a, SNum) or isinstance(n, SNum) else a % n
        E.prove("the two vertices", And(eq(r[0], cs.item(a)), eq(r[1], cs.item(b))))
        return
    b = If(k + 1 == n, 0, k + 1)
    E.prove("a line of two vertices", type(r) is m.Line and len_(r) == 2)
    E.prove("the two vertices", And(eq(vert(r, 0), cs.item(k)), eq(vert(r, 1), cs.item(b))))
    E.prove("properties and coordinate system", r.properties == PROPS and r.crs is crs)


def points(env, tag="P", width=None):
    E = env.E
    m, crs = module(env)
    rank = 2 + E.choose(2)
    n = env.n("n" + tag, 1)
    cs = CoordString.fresh(tag, n, rank=rank)
    w = 1 + E.choose(2) if width is None else width
    _, val, data = rows(env, tag, w, n=n)
    T = m.Table(data=data, fields=F[:w])
    return m, crs, n, cs, val, w, m.Multipoint(cs, data=T, properties=dict(PROPS), crs=crs)


@contract("karta.vector.geometry.Multipoint: a member at an index: its vertex, its row of data and the shared properties", sizes=(1, 2))
def member(env):
    E = env.E
    m, crs, n, cs, val, w, g = points(env)
    i, p = index(env, "i", n)
    r = g[i]
    E.prove("a point", type(r) is m.Point and r.crs is crs)
    E.prove("the vertex", eq(r._vertex, cs.item(p)))
    E.prove("its row and the shared properties", r.properties.keys() == set(F[:w]) | set(PROPS) and And(
        *[r.properties[F[j]] == val(p, j) for j in range(w)]))
    E.prove("the shared properties", all(r.properties[f] == v for f, v in PROPS.items()) and g.properties == PROPS)


@contract("karta.vector.geometry.Multipoint: a slice: its members in order, with their rows", sizes=(1, 2, 3))
def members(env):
    E = env.E
    m, crs, n, cs, val, w, g = points(env)
    s, ln, at = cut(env, n)
    if not E.branch(term(ln) > 0 if isinstance(ln, SNum) else z3.BoolVal(ln > 0)):
        return
    r = g[s]
    E.prove("a multipoint", type(r) is m.Multipoint and r.crs is crs and r.properties == PROPS)
    E.prove("as many members", And(len_(r) == ln, count(r.data._data) == ln))
    k = some(env, "k", ln)
    E.prove("the vertices in order", eq(vert(r, k), cs.item(at(k))))
    row = toseq(r.data._data).f(k)
    E.prove("the rows in order", set(r.data._fields) == set(F[:w]) and And(*[row[r.data._fields.index(F[j])] == val(at(k), j) for j in range(w)]))


def parts(env, kind):
    """a multiline or multipolygon of up to three members of any number of vertices"""
    E = env.E
    m, crs = module(env)
    p = 1 + E.choose(3)
    ring = kind == "Multipolygon"
    rank = 2
    V = []
    for i in range(p):
        def one(t):
            return CoordString.fresh(t, env.n("n" + t, 1), rank=rank, ring=ring)
        V.append([one("R%d_%d" % (i, q)) for q in range(1 + (i + 1) % 3)] if ring else one("L%d" % i))
    data = [(E.real("d%d" % i), E.real("e%d" % i)) for i in range(p)]
    g = object.__new__(getattr(m, kind))
    m.Geometry.__init__(g, properties=dict(PROPS), crs=crs)
    g._vertices = V
    g.data = m.Table(data=list(data), fields=("a", "b"))
    g._geotype = kind
    return m, crs, p, V, data, g


def same(env, cs, ref, what, ring=True):
    """the vertices of the one are those of the other"""
    E = env.E
    E.prove(what + ": as many vertices", cs.length == ref.length)
    if not E.branch(term(ref.length) > 0 if isinstance(ref.length, SNum) else z3.BoolVal(ref.length > 0)):
        return
    k = E.fresh("k", "int")
    E.assume(And(k >= 0, k < ref.length))
    E.prove(what + ": every vertex", eq(cs.item(k), ref.item(k)))
    if ring:
        E.prove(what + ": closed or open", bool(cs.ring) == bool(ref.ring))


@contract("karta.vector.geometry.Multiline, Multipolygon: a member at an index: its vertices, rings, row of data and the shared properties", sizes=(1, 2))
def part(env):
    E = env.E
    kind = ("Multiline", "Multipolygon")[E.choose(2)]
    m, crs, p, V, data, g = parts(env, kind)
    i = E.choose(2 * p) - p
    r = g[i]
    E.prove("its type", type(r) is (m.Line if kind == "Multiline" else m.Polygon) and r.crs is crs)
    E.prove("properties", r.properties.keys() == {"a", "b"} | set(PROPS) and And(
        r.properties["a"] == data[i][0], r.properties["b"] == data[i][1]) and all(r.properties[f] == v for f, v in PROPS.items()))
    E.prove("the shared properties are kept", g.properties == PROPS)
    E.prove("as many members", len(g) == p)
    if kind == "Multiline":
        same(env, r._vertices, V[i], "the member")
        return
    same(env, r._vertices, V[i][0], "the outer ring")
    E.prove("as many rings", len(r.subs) == len(V[i]) - 1)
    for s, c in zip(r.subs, V[i][1:]):
        E.prove("a sub-polygon", type(s) is m.Polygon and s.crs is crs)
        same(env, s._vertices, c, "an inner ring")


@contract("karta.vector.geometry.Multiline, Multipolygon: a slice: its members in order, with their rows; iterating gives all members", sizes=(1, 2))
def part_slice(env):
    E = env.E
    kind = ("Multiline", "Multipolygon")[E.choose(2)]
    m, crs, p, V, data, g = parts(env, kind)
    if E.choose(2):
        L = list(g)
        E.prove("every member", len(L) == p and all(type(x) is (m.Line if kind == "Multiline" else m.Polygon) for x in L))
        for x, v, d in zip(L, V, data):
            same(env, x._vertices, v if kind == "Multiline" else v[0], "a member")
            E.prove("its row", And(x.properties["a"] == d[0], x.properties["b"] == d[1]))
        return
    s = (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, None, 2), slice(1, 2))[E.choose(6)]
    if not V[s]:
        return
    r = g[s]
    E.prove("its type", type(r) is type(g) and r.crs is crs and r.properties == PROPS)
    E.prove("as many members", len(r._vertices) == len(V[s]) and len(r.data._data) == len(V[s]))
    for a, b in zip(r._vertices, V[s]):
        if kind == "Multiline":
            same(env, a, b, "a member")
        else:
            E.prove("as many rings", len(a) == len(b))
            for x, y in zip(a, b):
                same(env, x, y, "a ring", False)
    for a, b in zip(r.data._data, data[s]):
        row = dict(zip(r.data._fields, a))
        E.prove("its row", And(row["a"] == b[0], row["b"] == b[1]))


@contract("karta.vector.geometry.Multipoint.merge: the members of all items in order, with the fields they share (table.merge by its contract)", sizes=(1, 2))
def merge_points(env):
    E = env.E
    m, crs = module(env)
    log = []

    def merge(mappings):
        log.append(list(mappings))
        return m.Table(size=total)
    m.table.merge = merge
    ra, rb = 2 + E.choose(2), 2 + E.choose(2)
    na = env.n("na", 1)
    A = CoordString.fresh("A", na, rank=ra)
    b = tuple(E.real("b%d" % d) for d in range(rb))
    g = m.Multipoint(A, data=m.Table(size=1), properties=dict(PROPS), crs=crs)
    pt = m.Point(b, properties={"a": 1}, crs=crs)
    order = E.choose(3)
    items = ((g, pt), (pt, g), (g, pt, g))[order]
    total = (na + 1, na + 1, na + 1 + na)[order]
    r = m.Multipoint.merge(*items)
    rank = min(ra, rb)
    E.prove("a multipoint", type(r) is m.Multipoint and r.crs is crs)
    E.prove("as many members", r._vertices.length == total)
    E.prove("the lowest rank", r._vertices.rank == rank)
    k = some(env, "k", total)
    if order == 0:
        want = lambda d: If(k < na, A.at(If(k < na, k, 0), d), b[d])
    elif order == 1:
        want = lambda d: If(k == 0, b[d], A.at(If(k > 0, k - 1, 0), d))
    else:
        want = lambda d: If(k < na, A.at(If(k < na, k, 0), d), If(k == na, b[d], A.at(If(k > na, k - na - 1, 0), d)))
    E.prove("every member in order", And(*[r._vertices.at(k, d) == want(d) for d in range(rank)]))
    E.prove("the data of all items in order", len(log) == 1 and len(log[0]) == len(items) and all(
        (x is g.data if i is g else x == pt.properties) for x, i in zip(log[0], items)))


@contract("karta.vector.geometry.Multiline.merge, Multipolygon.merge: the members of all items in order (table.merge by its contract)", sizes=(1, 2))
def merge_parts(env):
    E = env.E
    kind = ("Multiline", "Multipolygon")[E.choose(2)]
    m, crs = module(env)
    line = kind == "Multiline"
    log = []

    def merge(mappings):
        log.append(list(mappings))
        return m.Table(size=len(V))
    m.table.merge = merge
    ranks = [2 + E.choose(2) for i in range(2)]

    def one(t, rank):
        return CoordString.fresh(t, env.n("n" + t, 1), rank=rank, ring=not line)
    A = [one("A", ranks[0]), one("B", ranks[0])]
    g = object.__new__(getattr(m, kind))
    m.Geometry.__init__(g, crs=crs)
    g._vertices = A if line else [[c] for c in A]
    g.data = m.Table(size=2)
    g._geotype = kind
    C = one("C", ranks[1])
    D = one("D", ranks[1])
    if line:
        s = m.Line(C, properties={"a": 1}, crs=crs)
    else:
        s = m.Polygon(C, subs=[m.Polygon(D, crs=crs)], properties={"a": 1}, crs=crs)
    items = ((g, s), (s, g))[E.choose(2)]
    V = []
    for i in items:
        V += [[c] for c in A] if i is g else [[C]] if line else [[C, D]]
    r = getattr(m, kind).merge(*items)
    E.prove("its type", type(r) is getattr(m, kind) and r.crs is crs)
    E.prove("as many members", len(r._vertices) == len(V))
    rank = min(ranks)
    for a, b in zip(r._vertices, V):
        rings = [a] if line else list(a)
        E.prove("as many rings", len(rings) == len(b))
        for x, y in zip(rings, b):
            E.prove("as many vertices, of the lowest rank", And(x.length == y.length, x.rank == rank))
            k = E.fresh("k", "int")
            E.assume(And(k >= 0, k < y.length))
            E.prove("every vertex", And(*[x.at(k, d) == y.at(k, d) for d in range(rank)]))
    E.prove("the data of all items in order", len(log) == 1 and len(log[0]) == 2 and all(
        (x is g.data if i is g else x == s.properties) for x, i in zip(log[0], items)))


@contract("karta.vector.geometry: equal points, lines and polygons have the same type, vertices, properties and coordinate system", sizes=(1, 2))
def equal(env):
    E = env.E
    kind = ("Point", "Line", "Polygon")[E.choose(3)]
    m, crs = module(env)
    other = env.mod("karta.crs").Cartesian
    c2 = (crs, other)[E.choose(2)]
    p2 = (dict(PROPS), {"name": "b"})[E.choose(2)]
    rank = 2 + E.choose(2)
    if kind == "Point":
        v, w = [tuple(E.real("%s%d" % (t, d)) for d in range(rank)) for t in "vw"]
        a, b = m.Point(v, properties=dict(PROPS), crs=crs), m.Point(w, properties=p2, crs=c2)
        eqv = And(*[x == y for x, y in zip(v, w)])
    else:
        n = env.n("n", 1)
        A, B = [CoordString.fresh(t, n, rank=rank, ring=kind == "Polygon") for t in "AB"]
        a, b = getattr(m, kind)(A, properties=dict(PROPS), crs=crs), getattr(m, kind)(B, properties=p2, crs=c2)
        like = c2 is crs and p2 == PROPS
        r = bool(a == b)
        here = lambda k: And(*[A.at(k, d) == B.at(k, d) for d in range(rank)])
        if env.size is not None:
            E.prove("equal exactly then", And(like, *[here(k) for k in range(env.size)]) == r)
        elif r:
            k = some(env, "k", n)
            E.instantiate(k)
            E.prove("equal only then", And(like, here(k)))
        else:
            E.prove("different only then", not like or Or(*[Not(here(w)) for w in E.witness], *[Not(here(q)) for w in E.witness for q in [E.floordiv(w, rank)]]))
        return
    r = a == b
    E.prove("equal exactly then", (r if isinstance(r, bool) else r) == (And(eqv, c2 is crs, p2 == PROPS)))
