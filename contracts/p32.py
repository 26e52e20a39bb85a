"""P32: which lines and polygons intersect: the kernels, the sweep line's order, and the members of multipart geometries."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf.sseq import SSeq
from vf.loops import Picked

ASSUME = ["the sweep (karta.vector.intersection.intersects) itself is evaluated, not proved",
          "a search of the spatial index gives each member whose box overlaps the box asked for once (P15)",
          "a geometry that contains the first vertex of a member, or intersects it, has a box overlapping the member's box (P16, P17)"]


def seg(E):
    return [E.real("x%d" % i) for i in range(4)], [E.real("y%d" % i) for i in range(4)]


@contract("karta.vector.intersection._intersects: edges of one geometry never, others exactly when they have a common point", merge_ifs=False)
def edges(env):
    E = env.E
    f = env.mod("karta.vector.intersection")._intersects
    (x0, x1, x2, x3), (y0, y1, y2, y3) = seg(E)
    same = E.choose(2) == 1
    r = bool(f((x0, y0, x1, y1, 0), (x2, y2, x3, y3, 0 if same else 1)))
    if same:
        E.prove("edges of one geometry do not count", not r)
        return
    rx, ry, sx, sy = x1 - x0, y1 - y0, x3 - x2, y3 - y2
    qx, qy = x2 - x0, y2 - y0
    d = rx * sy - ry * sx
    if E.branch((d == 0).t):
        line = rx * (y3 - y0) == ry * (x3 - x0)
        lo = lambda a, b: If(a < b, a, b)
        hi = lambda a, b: If(a < b, b, a)
        ov = And(lo(x0, x1) <= hi(x2, x3), lo(x2, x3) <= hi(x0, x1), lo(y0, y1) <= hi(y2, y3), lo(y2, y3) <= hi(y0, y1))
        E.prove("parallel edges: in one line and overlapping", And(line, ov) if r else Not(And(line, ov)))
        return
    t, u = (qx * sy - qy * sx) / d, (qx * ry - qy * rx) / d
    if r:
        E.prove("reported: the lines meet within both edges", And(t >= 0, t <= 1, u >= 0, u <= 1))
    else:
        E.prove("not reported: the lines do not cross inside both edges", Not(And(t > 0, t < 1, u > 0, u < 1)))


class Queue(object):
    """the segments on the sweep line: a list of any length"""
    def __init__(self, E, n, at):
        self.E, self.n, self.at = E, n, at
        self.put = self.gone = self.asked = None

    def _len(self):
        return self.n

    def _loop_safe(self):
        return True

    def __getitem__(self, i):
        from vf.npshim import index_
        return self.at(index_(i, self.n))

    def append(self, v):
        self.put = (self.n, v)

    def insert(self, i, v):
        self.put = (i, v)

    def index(self, v):
        # by contract of list.index: the place of the item
        self.asked = v
        return self.place

    def pop(self, i=-1):
        self.gone = i


def line(env):
    """a sweep line with segments, none of them vertical"""
    E = env.E
    mod = env.mod("karta.vector.intersection")
    n = env.n("n", 0)
    fs = [z3.Function("seg%d" % d, z3.IntSort(), z3.RealSort()) for d in range(4)]

    def at(k):
        v = tuple(SNum(f(term(k))) for f in fs)
        E.add(term(v[0]) != term(v[2]))
        return v + (0,)
    s = mod.SweepLinePlaceholder()
    s.queue = Queue(E, n, at)
    return mod, n, at, s


def place(sg, x):
    """slope and height at x"""
    m = (sg[3] - sg[1]) / (sg[2] - sg[0])
    return m, sg[1] + m * (x - sg[0])


@contract("karta.vector.intersection.SweepLinePlaceholder._get_slope_height: slope and height of a segment at the sweep line", merge_ifs=False)
def height(env):
    E = env.E
    mod = env.mod("karta.vector.intersection")
    s = mod.SweepLinePlaceholder()
    sg = tuple(E.real(c) for c in ("x0", "y0", "x1", "y1")) + (0,)
    x = E.real("x")
    E.assume(sg[0] != sg[2])
    m, h = s._get_slope_height(sg, x)
    d = sg[2] - sg[0]
    E.prove("slope", m * d == sg[3] - sg[1])
    E.prove("height", (h - sg[1]) * d == (sg[3] - sg[1]) * (x - sg[0]))


@contract("karta.vector.intersection.SweepLinePlaceholder.insert: a segment is put above those that are lower, or as high and less steep, and below the next", sizes=(0, 1, 2))
def insert(env):
    E = env.E
    E.abs_all = True
    mod, n, at, s = line(env)
    x = E.real("x")
    new = tuple(E.real(c) for c in ("x0", "y0", "x1", "y1")) + (0,)
    E.assume(new[0] != new[2])
    M, H = z3.Function("slope", *[z3.RealSort()] * 5 + [z3.RealSort()]), z3.Function("height", *[z3.RealSort()] * 5 + [z3.RealSort()])

    def sh(self, sg, x):
        # by the contract above: functions of the segment and the place
        a = [z3.simplify(term(t, True)) for t in sg[:4] + (x,)]
        return SNum(M(*a)), SNum(H(*a))
    mod.SweepLinePlaceholder._get_slope_height = sh
    m, h = sh(None, new, x)

    def below(j):
        mj, hj = sh(None, at(j), x)
        return Or(hj < h, And(hj == h, mj < m))
    j = E.int("j", 0)
    E.assume(j < n)
    E.ghosts["slope"] = lambda k: sh(None, at(k), x)[0]
    E.ghosts["height"] = lambda k: sh(None, at(k), x)[1]

    def facts(loop, lv, env_, k):
        yield "below", Implies(j < k, below(j))
        yield "range", Or(k < n, n == 0)
        yield "range1", k <= n
    E.invs["order"] = facts
    s.insert(new, x)
    q = s.queue
    if q.put is None:
        E.prove("the segment is put on the line", False)
        return
    i, v = q.put
    E.prove("the segment itself", And(*[a == b for a, b in zip(v, new)]))
    E.prove("at a place of the line", And(i >= 0, i <= n))
    E.prove("above every segment before it", Implies(j < i, below(j)))
    if E.branch((i < n).t if isinstance(i < n, SBool) else bool(i < n)):
        E.prove("not above the next", Not(below(i)))


@contract("karta.vector.intersection.SweepLinePlaceholder: the neighbours of a segment, and its removal")
def neighbours(env):
    E = env.E
    mod, n, at, s = line(env)
    i = E.int("i", 0)
    E.assume(i < n)
    s.queue.place = i
    sg = at(i)
    k = E.choose(3)
    if k == 2:
        s.remove(sg)
        E.prove("the segment asked for is removed", And(s.queue.asked is sg, s.queue.gone == i))
        return
    r = s.leftof(sg) if k == 0 else s.rightof(sg)
    E.prove("of the segment asked for", s.queue.asked is sg)
    j = i - 1 if k == 0 else i + 1
    if r is None:
        E.prove("none at the end of the line only", j < 0 if k == 0 else j >= n)
    else:
        w = at(j)
        E.prove("the segment next to it", And(j >= 0, j < n, *[a == b for a, b in zip(r, w)]))


@contract("karta.vector.geometry.MultiVertexMixin.intersects: boxes apart never, otherwise what the sweep says")
def whole(env):
    E = env.E
    m = env.mod("karta.vector.geometry")
    c = env.mod("karta.vector.intersection")
    crs = env.mod("karta.crs")
    kinds = (m.Line, m.Polygon)

    class V(object):
        pass
    va, vb = V(), V()
    answer = {}

    class Lib(object):
        bboxes_overlap = staticmethod(c.bboxes_overlap)

        @staticmethod
        def intersects(a, b):
            E.prove("the sweep is over the two geometries", {id(a), id(b)} == {id(va), id(vb)})
            return E.bool("meet")

        @staticmethod
        def intersects_sph(a, b):
            E.prove("planar geometries are not compared on a sphere", False)
            return False
    m._cintersection = Lib

    def make(kind, v, tag):
        box = tuple(E.real(tag + str(d)) for d in range(4))
        E.assume(And(box[0] <= box[2], box[1] <= box[3]))
        asked = []

        class G(kind):
            def __init__(self):
                self._vertices = v
                self.crs = crs.Cartesian

            def bbox(self, crs=None):
                asked.append(crs)
                return box
        g = G()
        return g, box, asked
    ga, a, ca = make(kinds[E.choose(2)], va, "a")
    gb, b, cb = make(kinds[E.choose(2)], vb, "b")
    r = ga.intersects(gb)
    want = And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3], E.bool("meet"))
    r = SBool(term(r)) if isinstance(r, SNum) else r
    r = bool(r)
    E.prove("boxes overlap and the sweep finds a crossing", want if r else Not(want))
    E.prove("the boxes are in the system of the first", all(x is None or x is crs.Cartesian for x in ca) and all(x is crs.Cartesian for x in cb))


def members(env, kind):
    E = env.E
    m = env.mod("karta.vector.geometry")
    n = env.n("found", 0)
    idx = z3.Function("index", z3.IntSort(), z3.IntSort())
    hit, ins = (z3.Function(c, z3.IntSort(), z3.BoolSort()) for c in ("crosses", "inside"))
    CRS = object()
    BOX = tuple(E.real("b%d" % d) for d in range(4))

    class Vertex(object):
        def __init__(self, i):
            self.i = i

    class Member(object):
        def __init__(self, i):
            self.i = i

        def __getitem__(self, k):
            E.prove("the first vertex of a member", k == 0)
            return Vertex(self.i)

    class Tree(object):
        def search_overlapping(self, box, *a, **kw):
            E.prove("the index is asked for the box of the geometry", box is BOX and not a and not kw)
            return SSeq(n, lambda k: SNum(idx(term(k))), True) if env.size is None else [SNum(idx(z3.IntVal(k))) for k in range(n)]

    class Multi(m.MultiVertexMultipartMixin):
        rtree, crs = Tree(), CRS
        made = None

        def __init__(self, parts=None, **kw):
            self.made = parts

        def __getitem__(self, i):
            return Member(i)

    class G(m.Polygon if kind == "Polygon" else m.Line):
        def __init__(self):
            self.crs = object()

        def bbox(self, crs=None):
            E.prove("its box is in the system of the members", crs is CRS)
            return BOX

        def intersects(self, o):
            return SBool(hit(term(o.i)))

        def contains(self, p):
            E.prove("a vertex is looked for", isinstance(p, Vertex))
            return SBool(ins(term(p.i)))
    return m, n, lambda k: idx(term(k)), hit, ins, Multi(), G()


def chosen(env, r, n, keep, idx):
    E = env.E
    same = lambda v, k: SNum(term(v.i)) == SNum(idx(k))
    got = r.made
    E.prove("a geometry of the same kind", type(r).__name__ == "Multi")
    if isinstance(got, Picked):
        E.prove("exactly the members, in the order found", got.whole(E))
        return
    want = [k for k in range(n) if bool(keep(k))]
    E.prove("exactly the members, in the order found", And(len(got) == len(want), *[same(v, k) for v, k in zip(got, want)]) if len(got) == len(want) else False)


@contract("karta.vector.geometry.MultiVertexMultipartMixin.touching: the members crossing a line, and those starting in or crossing a polygon", sizes=(0, 1, 2))
def touching(env):
    E = env.E
    kind = ("Line", "Polygon")[E.choose(2)]
    m, n, idx, hit, ins, M, g = members(env, kind)
    keep = lambda k: SBool(z3.Or(hit(idx(k)), ins(idx(k))) if kind == "Polygon" else hit(idx(k)))
    E.picks["members"] = ((n,), keep, lambda v, k: SNum(term(v.i)) == SNum(idx(k)))
    chosen(env, M.touching(g), n, keep, idx)


@contract("karta.vector.geometry.MultiVertexMultipartMixin.within: the members starting in a polygon and not crossing it", sizes=(0, 1, 2))
def within(env):
    E = env.E
    m, n, idx, hit, ins, M, g = members(env, "Polygon")
    keep = lambda k: SBool(z3.And(ins(idx(k)), z3.Not(hit(idx(k)))))
    E.picks["members"] = ((n,), keep, lambda v, k: SNum(term(v.i)) == SNum(idx(k)))
    chosen(env, M.within(g), n, keep, idx)


@contract("karta.vector.geometry.MultiVertexMultipartMixin: members touching anything but a line or polygon are refused")
def refused(env):
    E = env.E
    m, n, idx, hit, ins, M, g = members(env, "Polygon")
    G = type(g)
    k = E.choose(3)

    class Other(m.Multipoint if k < 2 else m.Line):
        def __init__(self):
            self.crs = object()

        bbox = G.bbox
    try:
        (M.touching if k == 0 else M.within)(Other())
    except TypeError:
        E.prove("refused", True)
        return
    E.prove("refused", False)
