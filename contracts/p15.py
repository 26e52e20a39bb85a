"""P15: the R-tree, in C."""
import z3
from z3 import And, Or, Not, Implies, If, Int, Ints, IntSort, RealSort, BoolSort, ArraySort, Store
from vf.main import contract
from vf.cprog import Prog, Contract, Loop, forall
from contracts.cpool import ELEM, POOLS, entry, pcount, pmem, okpool, flat, pool_contracts, resize_inv

ASSUME = ["the C contracts take floats and ints as mathematical numbers, free as doing nothing, malloc as not failing, and do not show termination"]

H = "karta/vector/rtree.h"
LEAF, NONLEAF = 0, 1
I, R, B = IntSort(), RealSort(), BoolSort()
GHOSTS = {"V": ArraySort(I, B), "A": ArraySort(I, B), "at": ArraySort(I, I), "root": I, "PR": B, "K": I, "TB": I, "M": I, "N0": I,
          "AT": ArraySort(I, I)}


def typ(S, n): return S.f("Node.type", n)
def cnt(S, n): return S.f("Node.count", n)
def kids(S, n): return S.f("Node.children", n)
def kid(S, n, j): return S.f("elem:ptr.base", kids(S, n), j)
def idx(S, n, j): return S.f("elem:int", S.f("Node.indices", n), j)
def nbox(S, n): return S.f("Node.bbox", n)
def box(S, b): return [S.f("Bbox." + c, b) for c in ("xmin", "ymin", "xmax", "ymax")]


def proper(S, b):
    x0, y0, x1, y1 = box(S, b)
    return And(x0 <= x1, y0 <= y1)


def covers(S, b, c):
    a, d = box(S, b), box(S, c)
    return And(a[0] <= d[0], a[1] <= d[1], a[2] >= d[2], a[3] >= d[3])


def meet(S, b, c):
    """the boxes share a point"""
    a, d = box(S, b), box(S, c)
    return And(a[0] <= a[2], a[1] <= a[3], d[0] <= d[2], d[1] <= d[3], a[0] <= d[2], d[0] <= a[2], a[1] <= d[3], d[1] <= a[3])


def contains(S, b, c):
    """c in b, not touching its left or lower side"""
    a, d = box(S, b), box(S, c)
    return And(a[0] < d[0], a[1] < d[1], d[2] <= a[2], d[3] <= a[3])


def tree(S):
    """the invariant of the tree: V are its nodes; the item K, if PR, with the box TB, is number at[n] of
    every node n of A, directly in the leaf and below the nodes above it, whose boxes cover it"""
    g = S.g
    n, j = Ints("n j")
    V, A, at = g("V"), g("A"), g("at")
    c = kid(S, n, j)
    leaf = typ(S, n) == LEAF
    r = g("root")
    off = And(S.f("elem:ptr.off", kids(S, n), j) == 0, S.f("elem:ptr.fld", kids(S, n), j) == 0)
    return [
        ("nodes", forall([n], Implies(V[n], And(0 < n, n < g("N0"), Or(leaf, typ(S, n) == NONLEAF), 0 <= cnt(S, n), cnt(S, n) <= g("M"), 0 < nbox(S, n),
                                                S.f("Node.maxchildren", n) == g("M"), S.f("Node.indices", n) > 0, S.f("Node.indices", n) < g("N0"),
                                                0 < kids(S, n), kids(S, n) < g("N0"),
                                                S.f("size:ptr", kids(S, n)) > g("M"), S.f("size:int", S.f("Node.indices", n)) > g("M"))), [V[n]])),
        ("children", forall([n, j], Implies(And(V[n], 0 <= j, j < cnt(S, n)), And(off, c > 0, Or(leaf, And(V[c], A[c] == And(A[n], j == at[n]))))), [c])),
        ("indices", forall([n, j], Implies(And(V[n], leaf, 0 <= j, j < cnt(S, n)), (idx(S, n, j) == g("K")) == And(A[n], j == at[n])), [idx(S, n, j)])),
        ("way", forall([n], Implies(A[n], And(V[n], g("PR"), covers(S, nbox(S, n), g("TB")), 0 <= at[n], at[n] < cnt(S, n),
                                              Implies(leaf, kid(S, n, at[n]) == g("TB")))), [A[n]])),
        ("root", And(V[r], A[r] == g("PR"))),
        ("the item", Implies(g("PR"), And(g("TB") > 0, proper(S, g("TB")))))]


def track(S, p, e):
    """nodes on the way on the stack; results with the index"""
    return If(p == S.g("STK"), S.g("A")[e.base], S.f("elem:int", e.base, e.off) == S.g("K"))


def frame(S0, S):
    """the blocks of the tree are unchanged"""
    b = Int("b")
    return [("old blocks " + e, forall([b], Implies(b < S0.g("N0"), S[e][b] == S.c.start[e][b]), [S[e][b]])) for e in ELEM + ["size:ptr"]]


def pools_ok(S0, S, l):
    j = Int("j")
    q, r = l.node_pool.base, l.index_pool.base
    AT, N0 = S.g("AT"), S.g("N0")
    out = [("the pools", And(okpool(S, q), okpool(S, r), q != r, pmem(S, q) != pmem(S, r), pmem(S, q) >= N0, pmem(S, r) >= N0, S.g("STK") == q))]
    out += frame(S0, S)
    for nm, p in (("stack", q), ("results", r)):
        e = entry(S, p, j)
        ok = And(e.off == 0, e.fld == 0, S.g("V")[e.base]) if p is q else And(e.fld == 0, e.base > 0)
        t = S.g("A")[e.base] if p is q else S.f("elem:int", e.base, e.off) == S.g("K")
        out.append((nm + ": entries", forall([j], Implies(And(0 <= j, j < pcount(S, p)), ok), flat(e))))
        out.append((nm + ": the one of the item", forall([j], Implies(And(0 <= j, j < pcount(S, p)), t == (j == AT[p])), flat(e))))
        out.append((nm + ": its place", And(-1 <= AT[p], AT[p] < pcount(S, p))))
    m, f = l.max_results, l.nfound
    out.append(("number of results", And(f == pcount(S, r), Implies(m >= 0, f <= m))))
    return out


class Search(object):
    """one of the two searches; want(S, query): is the item to be found"""
    def __init__(self, name, rel):
        self.name, self.rel = name, rel

    def want(self, S, l):
        return And(S.g("PR"), self.rel(S, l.bbox.base, S.g("TB")))

    def inv(self, S0, S, l0, l):
        AT = S.g("AT")
        q, r = AT[l.node_pool.base], AT[l.index_pool.base]
        w = self.want(S, l)
        return pools_ok(S0, S, l) + [("found once", And(Not(And(q != -1, r != -1)), Implies(w, Or(q != -1, r != -1, l.nfound == l.max_results)), Implies(Not(w), r == -1))),
                                     ("there is a node to visit", pcount(S, l.node_pool.base) >= 1)]

    def leaf(self, S0, S, l0, l):
        n = l.active_node.base
        AT, AT0 = S.g("AT"), S0.g("AT")
        q, r = l.node_pool.base, l.index_pool.base
        return pools_ok(S0, S, l) + [
            ("range", And(0 <= l.j, l.j <= cnt(S, n), l.nfound != l.max_results)),
            ("found in this leaf", (AT[r] != -1) == Or(AT0[r] != -1, And(S.g("A")[n], self.want(S, l), S.g("at")[n] < l.j))),
            ("the stack", And(AT[q] == AT0[q], pcount(S, q) == pcount(S0, q), pmem(S, q) == pmem(S0, q)))] + [
            ("the stack " + e, S[e][pmem(S, q)] == S0[e][pmem(S0, q)]) for e in ELEM]

    def nonleaf(self, S0, S, l0, l):
        n = l.active_node.base
        AT, AT0 = S.g("AT"), S0.g("AT")
        q, r = l.node_pool.base, l.index_pool.base
        here = And(S.g("A")[n], S.g("at")[n] < l.j)
        return pools_ok(S0, S, l) + [
            ("range", And(0 <= l.j, l.j <= cnt(S, n))),
            ("stacked from this node", And(Implies(AT[q] != -1, Or(AT0[q] != -1, here)), Implies(AT0[q] != -1, AT[q] != -1),
                                           Implies(And(here, self.want(S, l)), AT[q] != -1))),
            ("the results", And(AT[r] == AT0[r], pcount(S, r) == pcount(S0, r), pmem(S, r) == pmem(S0, r)))]

    def post(self, S0, S, a, r):
        j = Int("j")
        p = r.base
        e = entry(S, p, j)
        AT = S.g("AT")[p]
        w = self.want(S, a)
        return [("at most the number asked for", Implies(a.max_results >= 0, pcount(S, p) <= a.max_results)),
                ("the item once", forall([j], Implies(And(0 <= j, j < pcount(S, p)), (S.f("elem:int", e.base, e.off) == S.g("K")) == (j == AT)), flat(e))),
                ("only if it is to be found", And(-1 <= AT, AT < pcount(S, p), Implies(AT != -1, w))),
                ("always, when there are fewer than asked for", Implies(And(w, Or(a.max_results < 0, pcount(S, p) < a.max_results)), AT != -1))]

    def prog(self, env):
        P = prog(env)
        P.contracts[self.name] = Contract(
            lambda S, a: tree(S) + [("the root", And(a.node.base == S.g("root"), S.g("N0") == S.next, a.bbox.base > 0, proper(S, a.bbox.base)))],
            self.post, POOLS, ["AT", "STK"])
        m = POOLS
        P.loops[(self.name, 0)] = Loop(self.inv, m, ["AT"], alloc=True)
        P.loops[(self.name, 1)] = Loop(self.leaf, m, ["AT"], alloc=True)
        P.loops[(self.name, 2)] = Loop(self.nonleaf, m, ["AT"], alloc=True)
        # the stack is the pool the root is put into
        ut = P.contracts["pool_add"].update

        def first(S, l):
            if "STK" not in S.ghost:
                S.ghost["STK"] = l.node_pool.base
        P.hooks[(self.name, "pool_add")] = first
        return P


def basic():
    bit = lambda r: Or(r == 0, r == 1)
    two = lambda a: [x for k, x in sorted(vars(a).items())]
    return {
        "minf": Contract(post=lambda S0, S, a, r: [("the smaller", r == If(a.a <= a.b, a.a, a.b))]),
        "maxf": Contract(post=lambda S0, S, a, r: [("the larger", r == If(a.a >= a.b, a.a, a.b))]),
        "is_within": Contract(lambda S, a: [("boxes", And(a.outerbb.base != 0, a.testbb.base != 0))],
                              lambda S0, S, a, r: [("contained", And(bit(r), (r == 1) == contains(S, a.outerbb.base, a.testbb.base)))]),
        "is_overlapping": Contract(lambda S, a: [("boxes", And(a.bb.base != 0, a.testbb.base != 0))],
                                   lambda S0, S, a, r: [("for proper boxes: they share a point", And(bit(r), Implies(And(proper(S, a.bb.base), proper(S, a.testbb.base)),
                                                         (r == 1) == meet(S, a.bb.base, a.testbb.base))))]),
    }


def prog(env):
    cs = pool_contracts(track)
    cs.update(basic())
    return Prog(env.E, env.root, H, cs, {("pool_resize", 0): Loop(resize_inv, ELEM)})


def one(name):
    @contract("%s: %s" % (H, name), weak=True)
    def f(env):
        P = prog(env)
        P.verify(name, dict(GHOSTS, STK=I))


for _n in ("pool_new", "pool_resize", "pool_add", "pool_pop", "minf", "maxf", "is_within", "is_overlapping"):
    one(_n)


# ---- building

BB = ["Bbox." + c for c in ("xmin", "ymin", "xmax", "ymax")]


def childbox(S, n, j):
    c = kid(S, n, j)
    return If(typ(S, n) == LEAF, c, nbox(S, c))


def node_ok(S, n, more=0):
    """a node whose arrays hold its children (and more)"""
    j = Int("j")
    c = kid(S, n, j)
    off = And(S.f("elem:ptr.off", kids(S, n), j) == 0, S.f("elem:ptr.fld", kids(S, n), j) == 0)
    return And(n > 0, Or(typ(S, n) == LEAF, typ(S, n) == NONLEAF), cnt(S, n) >= 0, nbox(S, n) > 0, kids(S, n) > 0, S.f("Node.indices", n) > 0,
               S.f("size:ptr", kids(S, n)) >= cnt(S, n) + more, S.f("size:int", S.f("Node.indices", n)) >= cnt(S, n) + more,
               forall([j], Implies(And(0 <= j, j < cnt(S, n)), And(off, c > 0, childbox(S, n, j) > 0, childbox(S, n, j) != nbox(S, n))), [c]))


def onlybox(S0, S, b):
    return [("only its box: " + k, S[k] == Store(S0[k], b, S.f(k, b))) for k in BB]


def covered(S, n, k):
    j = Int("j")
    return forall([j], Implies(And(0 <= j, j < k), covers(S, nbox(S, n), childbox(S, n, j))), [kid(S, n, j)])


def cell(S, p): return S.f("elem:int", p.base, p.off)


def cells(S0, S, *ps):
    a = S0["elem:int"]
    for p in ps:
        a = Store(a, p.base, Store(a[p.base], p.off, cell(S, p)))
    return [("only the numbers asked for", S["elem:int"] == a)]


def boxes_at(S, p, n):
    j = Int("j")
    e = [S.f(k, p.base, p.off + j) for k in ELEM]
    return And(p.base > 0, p.off == 0, S.f("size:ptr", p.base) >= n,
               forall([j], Implies(And(0 <= j, j < n), And(S.f(ELEM[0], p.base, j) > 0, S.f(ELEM[1], p.base, j) == 0, S.f(ELEM[2], p.base, j) == 0)), [S.f(ELEM[0], p.base, j)]))


def building():
    def tight_inv(S0, S, l0, l):
        n = l.node.base
        return [("range", And(1 <= l.i, l.i <= cnt(S, n))), ("covers those so far", covered(S, n, l.i))] + onlybox(S0, S, nbox(S, n))

    def new_post(S0, S, a, r):
        n = r.base
        ks, ix, b = kids(S, n), S.f("Node.indices", n), nbox(S, n)
        return [("a node without children", And(n >= S0.next, ks >= S0.next, ix >= S0.next, b >= S0.next, n < S.next, ks < S.next, ix < S.next, b < S.next,
                                                ks != ix, r.off == 0, r.fld == 0, typ(S, n) == a.type, cnt(S, n) == 0, S.f("Node.maxchildren", n) == a.maxchildren,
                                                S.f("Node.parent", n) == a.parent.base, S.f("size:ptr", ks) > a.maxchildren, S.f("size:int", ix) > a.maxchildren)),
                ("its box holds nothing", And(S.f("Bbox.xmin", b) > S.f("Bbox.xmax", b), S.f("Bbox.ymin", b) > S.f("Bbox.ymax", b)))] + [
            ("only the new node: " + k, S[k] == Store(S0[k], n, S.f(k, n))) for k in NODE] + onlybox(S0, S, b) + [
            ("only its blocks", And(S["size:ptr"] == Store(S0["size:ptr"], ks, S.f("size:ptr", ks)), S["size:int"] == Store(S0["size:int"], ix, S.f("size:int", ix))))]

    def choose_pre(S, a):
        return grown(S) + [("a node", S.g("V")[a.node.base]), ("a box", a.bbox.base > 0)]

    def choose_inner(S0, S, l0, l):
        return [("range", And(1 <= l.i, l.i <= cnt(S, l.node.base), 0 <= l.iminexpanded, l.iminexpanded < l.i))]

    contracts = {
        "rt_new_node": Contract(lambda S, a: [("four children or more", a.maxchildren >= 4)], new_post, NODE + BB + ["size:ptr", "size:int"]),
        "add_node": Contract(lambda S, a: [("two nodes, and room", And(node_ok(S, a.parent.base, 1), a.child.base > 0, a.parent.off == 0, a.child.off == 0))],
                             lambda S0, S, a, r: [
            ("the child is the last", And(cnt(S, a.parent.base) == cnt(S0, a.parent.base) + 1, S.f("Node.parent", a.child.base) == a.parent.base,
                                          kid(S, a.parent.base, cnt(S0, a.parent.base)) == a.child.base)),
            ("more than it may have", And(Or(r == 0, r == 1), (r == 1) == (cnt(S, a.parent.base) > S.f("Node.maxchildren", a.parent.base)))),
            ("only its count", S["Node.count"] == Store(S0["Node.count"], a.parent.base, cnt(S, a.parent.base))),
            ("only the parent of the child", S["Node.parent"] == Store(S0["Node.parent"], a.child.base, a.parent.base))] + [
            ("only its last child: " + k, S[k] == Store(S0[k], kids(S0, a.parent.base), Store(S0[k][kids(S0, a.parent.base)], cnt(S0, a.parent.base), v)))
            for k, v in zip(ELEM, (a.child.base, z3.IntVal(0), z3.IntVal(0)))], ["Node.count", "Node.parent"] + ELEM),
        "rt_tighten_bbox": Contract(lambda S, a: [("a node", node_ok(S, a.node.base))],
                                    lambda S0, S, a, r: [("the box covers the children", And((r == 0) == (cnt(S, a.node.base) > 0), covered(S, a.node.base, cnt(S, a.node.base))))]
                                    + onlybox(S0, S, nbox(S, a.node.base)), BB),
        "linear_pick_seeds": Contract(
            lambda S, a: [("two boxes or more", And(a.nbboxes >= 2, boxes_at(S, a.bboxes, a.nbboxes))),
                          ("places for two numbers", And(a.seed0.base > 0, a.seed1.base > 0, a.seed0.base != a.seed1.base))],
            lambda S0, S, a, r: [("two of them, or none", And(Or(r == 0, r == 1), Implies(r == 0, And(
                0 <= cell(S, a.seed0), cell(S, a.seed0) < a.nbboxes, 0 <= cell(S, a.seed1), cell(S, a.seed1) < a.nbboxes, cell(S, a.seed0) != cell(S, a.seed1)))))]
            + cells(S0, S, a.seed0, a.seed1), ["elem:int"]),
        "linear_pick_next": Contract(
            lambda S, a: [("a box or more", And(a.nbboxes >= 1, boxes_at(S, a.bboxes, a.nbboxes))),
                          ("two nodes", And(a.node0.base > 0, a.node1.base > 0, nbox(S, a.node0.base) > 0, nbox(S, a.node1.base) > 0)),
                          ("places for two numbers", And(a.inextchild.base > 0, a.ibestnode.base > 0, a.inextchild.base != a.ibestnode.base))],
            lambda S0, S, a, r: [("one of them, and one of the nodes", And(r == 0, 0 <= cell(S, a.inextchild), cell(S, a.inextchild) < a.nbboxes,
                                                                            Or(cell(S, a.ibestnode) == 0, cell(S, a.ibestnode) == 1)))]
            + cells(S0, S, a.inextchild, a.ibestnode), ["elem:int"]),
        "volume_expanded": Contract(lambda S, a: [("two boxes", And(a.bbox0.base > 0, a.bbox1.base > 0))]),
        "rt_choose_leaf": Contract(choose_pre, lambda S0, S, a, r: [("a leaf of the tree", And(S.g("V")[r.base], typ(S, r.base) == LEAF, r.off == 0, r.fld == 0))]),
    }
    loops = {
        ("rt_tighten_bbox", 0): Loop(tight_inv, BB),
        ("rt_tighten_bbox", 1): Loop(tight_inv, BB),
        ("linear_pick_seeds", 0): Loop(lambda S0, S, l0, l: [("range", And(1 <= l.i, l.i <= l.nbboxes, *[And(0 <= x, x < l.i) for x in (
            l.iminxmax, l.imaxxmin, l.iminymax, l.imaxymin)]))], []),
        ("rt_choose_leaf", 0): Loop(lambda S0, S, l0, l: [("a node of the tree", S.g("V")[l.node.base])], []),
        ("rt_choose_leaf", 1): Loop(choose_inner, []),
    }
    return contracts, loops


NODE = ["Node." + f for f in ("type", "strategy", "count", "maxchildren", "parent", "children", "indices", "bbox")]


def grown(S):
    """the shape alone: nodes with enough room; a node above the leaves has children, which are nodes"""
    g = S.g
    n, j = Ints("n j")
    V = g("V")
    return [
        ("nodes", forall([n], Implies(V[n], And(node_ok(S, n), Implies(typ(S, n) == NONLEAF, cnt(S, n) > 0))), [V[n]])),
        ("children", forall([n, j], Implies(And(V[n], typ(S, n) == NONLEAF, 0 <= j, j < cnt(S, n)), V[kid(S, n, j)]), [kid(S, n, j)]))]


def build_one(name):
    @contract("%s: %s" % (H, name), weak=True)
    def f(env):
        cs = basic()
        b, loops = building()
        cs.update(b)
        Prog(env.E, env.root, H, cs, loops).verify(name, {"V": ArraySort(I, B)})


for _n in ("rt_new_node", "add_node", "rt_tighten_bbox", "linear_pick_seeds", "linear_pick_next", "volume_expanded", "rt_choose_leaf"):
    build_one(_n)


def searching(name, rel, what):
    @contract("%s: %s: an item is found exactly when its box %s, once, unless as many as asked for are found" % (H, name, what), weak=True)
    def f(env):
        Search(name, rel).prog(env).verify(name, GHOSTS)


searching("rt_search_within", contains, "is in the query")
searching("rt_search_overlapping", meet, "shares a point with the query")
