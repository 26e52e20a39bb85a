"""P20: affine transforms move every vertex and nothing else."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, term
from vf import npshim as NP
from vf.seq import CoordString

ASSUME = ["spatial indexes are built on the vertices given (P14, P15)"]


def matrix(E, three):
    """a 2 by 3 or 3 by 4 matrix as given, and its action on a vertex"""
    r, c = (3, 4) if three else (2, 3)
    m = [[E.real("m%d%d" % (i, j)) for j in range(c)] for i in range(r)]
    A = NP.array(m, dtype=NP.dtype("float64"))

    def act(v):
        """a point without height has height zero, and stays without"""
        w = tuple(v) if len(v) == 3 else tuple(v) + (0,)
        out = []
        for i in range(len(v)):
            if three:
                out.append(sum(m[i][k] * w[k] for k in range(3)) + m[i][3])
            elif i < 2:
                out.append(m[i][0] * w[0] + m[i][1] * w[1] + m[i][2])
            else:
                out.append(w[2])
        return out
    return A, act


class Body(object):
    """a geometry of any size and what must be kept of it"""
    def __init__(self, env, kind, tag="P", props=True):
        E = self.E = env.E
        self.env, self.kind = env, kind
        self.m = env.mod("karta.vector.geometry")
        self.crs = env.mod("karta.crs").WebMercator
        self.rank = 2 + E.choose(2)
        self.props = {"name": "a", "n": 3}
        kw = dict(properties=dict(self.props), crs=self.crs)
        if kind == "Point":
            self.v = tuple(E.real("%s_%d" % (tag, d)) for d in range(self.rank))
            self.g = self.m.Point(self.v, **kw)
            return
        self.n = env.n("n" + tag, 1)
        self.cs = CoordString.fresh(tag, self.n, rank=self.rank, ring=kind == "Polygon")
        self.K = E.int("K" + tag, 0)
        E.assume(self.K < self.n)
        self.g = getattr(self.m, kind)(self.cs, **kw)

    def ghost(self, act):
        """the vertices of the result, one by one, as the loop that collects them yields them"""
        if self.kind == "Point" or self.env.size is not None:
            return
        self.E.list_ghosts = {"V": lambda k: NP.array(act(self.cs.item(k)))}

    def vertex(self, g=None):
        g = self.g if g is None else g
        if self.kind == "Point":
            return g._vertex
        v = g._vertices
        return tuple(v.at(self.K, d) for d in range(self.rank))

    def check(self, r, act, deep=True):
        E = self.E
        old = self.v if self.kind == "Point" else tuple(self.cs.at(self.K, d) for d in range(self.rank))
        E.prove("type", type(r) is type(self.g))
        if self.kind == "Point":
            E.prove("rank", len(r._vertex) == self.rank)
        else:
            E.prove("as many vertices", r._vertices.length == self.n)
            E.prove("rank", r._vertices.rank == self.rank)
            E.prove("closed or open as before", bool(r._vertices.ring) == (self.kind == "Polygon"))
        E.prove("every vertex by the matrix", And(*[a == b for a, b in zip(self.vertex(r), act(old))]))
        E.prove("properties", r.properties == self.props)
        E.prove("coordinate system", r.crs is self.crs)
        E.prove("a new geometry", r is not self.g)
        E.prove("the original is unchanged", And(self.g.properties == self.props, *[a == b for a, b in zip(self.vertex(), old)]))


@contract("karta.vector.geometry.Point.apply_transform: the vertex by the matrix")
def point(env):
    E = env.E
    B = Body(env, "Point")
    A, act = matrix(E, E.choose(2))
    B.check(B.g.apply_transform(A), act)


@contract("karta.vector.geometry.MultiVertexMixin.apply_transform: every vertex of a line by the matrix", sizes=(1, 2))
def line(env):
    E = env.E
    B = Body(env, "Line")
    A, act = matrix(E, E.choose(2))
    B.ghost(act)
    B.check(B.g.apply_transform(A), act)


class Sub(object):
    """a sub-polygon or part, by the contract of its own apply_transform: it
    moves any vertex as the matrix it is given says"""
    def __init__(self, E, rank):
        self.w = tuple(E.fresh("w", "real") for d in range(rank))

    def apply_transform(self, M):
        w, three = self.w, tuple(M.shape) == (3, 4)
        z = tuple(w) if len(w) == 3 else tuple(w) + (0,)
        r = Sub.__new__(Sub)
        if three:
            r.w = tuple(sum(M[i, k] * z[k] for k in range(3)) + M[i, 3] for i in range(len(w)))
        else:
            r.w = tuple(M[i, 0] * z[0] + M[i, 1] * z[1] + M[i, 2] if i < 2 else z[2] for i in range(len(w)))
        r.of = self
        return r


@contract("karta.vector.geometry.MultiVertexMixin.apply_transform: every vertex of a polygon and of its sub-polygons by the matrix", sizes=(1, 2))
def polygon(env):
    E = env.E
    B = Body(env, "Polygon")
    S = [Sub(E, B.rank) for i in range(E.choose(3))]
    B.g.subs = list(S)
    old = [s.w for s in S]
    A, act = matrix(E, E.choose(2))
    B.ghost(act)
    r = B.g.apply_transform(A)
    B.check(r, act)
    E.prove("as many sub-polygons", len(r.subs) == len(S))
    for s, q, w in zip(S, r.subs, old):
        E.prove("sub-polygons in order", q.of is s)
        E.prove("vertices of sub-polygons by the matrix", And(*[x == y for x, y in zip(q.w, act(w))]))
    E.prove("the original keeps its sub-polygons", len(B.g.subs) == len(S) and all(a is b and a.w is w for a, b, w in zip(B.g.subs, S, old)))


class Index(object):
    """a spatial index built on the vertices"""
    def __init__(self, vertices, **kw):
        self.vertices = vertices


@contract("karta.vector.geometry.MultiVertexMixin.apply_transform: every vertex of a multipoint by the matrix, with its data", sizes=(1, 2))
def multipoint(env):
    E = env.E
    m = env.mod("karta.vector.geometry")
    m.QuadTree = Index
    crs = env.mod("karta.crs").WebMercator
    B = Body(env, "Point")
    B.kind, rank = "Multipoint", B.rank
    B.n = env.n("n", 1)
    B.cs = CoordString.fresh("P", B.n, rank=rank)
    B.K = E.int("K", 0)
    E.assume(B.K < B.n)
    data = object.__new__(m.Table)
    B.g = m.Multipoint(B.cs, data=data, properties=dict(B.props), crs=crs)
    A, act = matrix(E, E.choose(2))
    r = B.g.apply_transform(A)
    B.check(r, act)
    E.prove("data", r.data is data)
    E.prove("indexed by the new vertices", r.quadtree.vertices is r._vertices)


@contract("karta.vector.geometry: shift adds the vector to every vertex, heights stay", sizes=(1, 2))
def shift(env):
    E = env.E
    B = Body(env, ("Line", "Polygon")[E.choose(2)])
    u, v = E.real("u"), E.real("v")
    act = lambda w: [w[0] + u, w[1] + v] + list(w[2:])
    B.ghost(act)
    B.check(B.g.shift((u, v)), act)


@contract("karta.vector.geometry.Rotatable.rotate: every vertex turned about the origin given", sizes=(1, 2))
def rotate(env):
    E = env.E
    B = Body(env, ("Point", "Line", "Polygon")[E.choose(3)])
    d, x, y = E.real("degrees"), E.real("ox"), E.real("oy")
    M = B.m.math
    c, s = M.cos(d * M.pi / 180.0), M.sin(d * M.pi / 180.0)
    act = lambda w: [x + c * (w[0] - x) - s * (w[1] - y), y + s * (w[0] - x) + c * (w[1] - y)] + list(w[2:])
    B.ghost(act)
    B.check(B.g.rotate(d, origin=(x, y)), act)


@contract("karta.vector.geometry.apply_transform: matrices of another size are refused")
def refused(env):
    E = env.E
    B = Body(env, ("Point", "Line")[E.choose(2)])
    r, c = ((2, 2), (3, 3), (4, 4), (3, 2))[E.choose(4)]
    try:
        B.g.apply_transform(NP.zeros((r, c)))
    except ValueError:
        E.prove("refused", True)
        return
    E.prove("refused", False)
