"""P14: the quadtree, in C."""
import z3
from z3 import And, Or, Not, Implies, If, Int, Ints, Real, IntSort, RealSort, BoolSort, ArraySort, Store, Select, K
from vf.main import contract
from vf.cprog import Prog, Contract, Loop, Ptr, forall
from contracts.cpool import ELEM, POOLS, entry, pcount, pmem, okpool, flat, pool_contracts, resize_inv

ASSUME = ["the C contracts take doubles and ints as mathematical numbers, free as doing nothing, malloc as not failing, and do not show termination"]

H = "karta/vector/quadtree.h"
LEAF, NONLEAF = 0, 1
UL, UR, LL, LR = range(4)
CH = ["NonleafNode.%snode" % c for c in ("ul", "ur", "ll", "lr")]
I, R, B = IntSort(), RealSort(), BoolSort()
GHOSTS = {"V": ArraySort(I, B), "G": ArraySort(I, I), "SL": ArraySort(I, I), "O": ArraySort(I, I), "A": ArraySort(I, B),
          "T": I, "J": I, "root": I, "PR": B, "K": I, "kx": R, "ky": R, "XS": ArraySort(I, R), "YS": ArraySort(I, R), "M": I,
          "AT": ArraySort(I, I), "PT": ArraySort(I, B), "JJ": I, "ins": B}


def typ(S, n): return S.f("LeafNode.type", n)
def bb(S, n): return S.f("LeafNode.bbox", n)
def cnt(S, n): return S.f("LeafNode.count", n)
def pos(S, n): return S.f("LeafNode.positions", n)
def child(S, n, q): return S.f(CH[q], n)
def box(S, b): return [S.f("Bbox." + c, b) for c in ("xmin", "ymin", "xmax", "ymax")]


def quad(S, b, x, y):
    """the quadrant of box b with (x, y)"""
    x0, y0, x1, y1 = box(S, b)
    return If(x < (x0 + x1) / 2, If(y < (y0 + y1) / 2, LL, UL), If(y < (y0 + y1) / 2, LR, UR))


def inbox(S, b, x, y):
    x0, y0, x1, y1 = box(S, b)
    return And(x0 <= x, x <= x1, y0 <= y, y <= y1)


def inside(S, b, x, y):
    x0, y0, x1, y1 = box(S, b)
    return And(x0 < x, x < x1, y0 < y, y < y1)


def tree(S, over=None):
    """the invariant of the tree: V are its nodes, G the parent and SL the place of each, O the leaf a
    block of positions belongs to; the point K, if PR, is number J in the leaf T, below the nodes A"""
    g = S.g
    n, j = Ints("n j")
    V, G, SL, A = g("V"), g("G"), g("SL"), g("A")
    kx, ky = g("kx"), g("ky")
    leaf, non = typ(S, n) == LEAF, typ(S, n) == NONLEAF
    out = [("nodes", forall([n], Implies(V[n], And(0 < n, n < S.next, Or(leaf, non), 0 < bb(S, n), bb(S, n) < S.next)), [V[n]]))]
    for q in range(4):
        c = child(S, n, q)
        x0, y0, x1, y1 = box(S, bb(S, n))
        xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
        want = {UL: (x0, ym, xm, y1), UR: (xm, ym, x1, y1), LL: (x0, y0, xm, ym), LR: (xm, y0, x1, ym)}[q]
        out.append(("child %d" % q, forall([n], Implies(And(V[n], non), And(
            V[c], G[c] == n, SL[c] == q, *[a == b for a, b in zip(box(S, bb(S, c)), want)])), [c])))
        out.append(("the way to the point %d" % q, forall([n], Implies(And(V[n], non), A[c] == And(A[n], quad(S, bb(S, n), kx, ky) == q)), [c])))
    out.append(("leaves", forall([n], Implies(And(V[n], leaf), And(
        0 <= cnt(S, n), cnt(S, n) < g("M") if over is None else Or(cnt(S, n) < g("M"), And(n == over, cnt(S, n) <= g("M"))), S.f("LeafNode.max_positions", n) == g("M"), S.f("LeafNode.parent", n) == G[n],
        0 < pos(S, n), pos(S, n) < S.next, g("O")[pos(S, n)] == n, S.f("size:Position", pos(S, n)) >= g("M") + 1)), [V[n]])))
    pid = S.f("Position.id", pos(S, n), j)
    out.append(("points", forall([n, j], Implies(And(V[n], leaf, 0 <= j, j < cnt(S, n)), And(
        pid >= 0, S.f("Position.x", pos(S, n), j) == g("XS")[pid], S.f("Position.y", pos(S, n), j) == g("YS")[pid],
        Implies(pid == g("K"), And(g("PR"), n == g("T"), j == g("J"))))), [pid])))
    c = n
    out.append(("parents", forall([c], Implies(And(V[c], G[c] != 0), And(V[G[c]], typ(S, G[c]) == NONLEAF, 0 <= SL[c], SL[c] <= 3,
                *[Implies(SL[c] == q, child(S, G[c], q) == c) for q in range(4)])), [G[c]])))
    r = g("root")
    out.append(("root", And(V[r], G[r] == 0, A[r] == g("PR"))))
    out.append(("one root", forall([c], Implies(And(V[c], G[c] == 0), c == r), [G[c]])))
    out.append(("way", forall([n], Implies(A[n], And(V[n], g("PR"), inbox(S, bb(S, n), kx, ky), Implies(leaf, n == g("T")))), [A[n]])))
    T, J = g("T"), g("J")
    out.append(("the point", Implies(g("PR"), And(A[T], V[T], typ(S, T) == LEAF, 0 <= J, J < cnt(S, T),
                S.f("Position.id", pos(S, T), J) == g("K"), g("XS")[g("K")] == kx, g("YS")[g("K")] == ky))))
    out.append(("capacity", g("M") >= 1))
    return out


def leaf_contracts():
    bit = lambda r: Or(r == 0, r == 1)
    return {
        "iswithin": Contract(lambda S, a: [("a box and a point", And(a.bbox.base != 0, a.position.base != 0))],
                             lambda S0, S, a, r: [("inside exactly", And(bit(r), (r == 1) == inside(S, a.bbox.base, *[S.f(f, a.position.base, a.position.off) for f in POSF[:2]])))]),
        "overlaps": Contract(lambda S, a: [("boxes", And(a.bbox1.base != 0, a.bbox2.base != 0))],
                             lambda S0, S, a, r: [("a box with a point of the other overlaps it", And(bit(r), Implies(
                                 And(inside(S, a.bbox1.base, S.g("kx"), S.g("ky")), inbox(S, a.bbox2.base, S.g("kx"), S.g("ky"))), r == 1)))]),
        "get_quadrant": Contract(lambda S, a: [("a box and a point", And(a.bbox.base != 0, a.position.base != 0))],
                                 lambda S0, S, a, r: [("the quadrant with the point", r == quad(S, a.bbox.base, *[S.f(f, a.position.base, a.position.off) for f in POSF[:2]]))]),
    }


POSF = ["Position.x", "Position.y", "Position.id"]


def prog(env, track=lambda S, p, e: z3.BoolVal(False)):
    cs = pool_contracts(track)
    cs.update(leaf_contracts())
    loops = {("pool_resize", 0): Loop(resize_inv, ELEM)}
    return Prog(env.E, env.root, H, cs, loops)


def pool(name):
    @contract("%s: %s" % (H, name), weak=True)
    def f(env):
        P = prog(env)
        P.verify(name, GHOSTS)


for _n in ("pool_new", "pool_resize", "pool_add", "pool_pop", "iswithin", "overlaps", "get_quadrant"):
    pool(_n)


# ---- searching

FLD = {}


def node_at(S, e):
    """the node an entry of the stack points at"""
    n = S.c.src.numbers
    r = S.f("cell:ptr", e.base)
    for k in CH:
        r = If(e.fld == n[k], S.f(k, e.base), r)
    return r


def fldok(S, e):
    n = S.c.src.numbers
    return And(e.off == 0, Or(e.fld == 0, *[e.fld == n[k] for k in CH]), e.base != 0)


def id_at(S, e):
    return S.f("Position.id", e.base, e.off)


def track_search(S, p, e):
    """stacked nodes on the way to the point; results with its id"""
    return And(Or(*[And(e.fld == S.c.src.numbers[k], S.g("A")[node_at(S, e)]) for k in CH],
                  And(e.fld == 0, S.g("A")[node_at(S, e)]),
                  And(e.fld == S.c.src.numbers["Position.id"], id_at(S, e) == S.g("K"))))


def search_pools(S, l):
    j = Int("j")
    q, r = l.quadrants.base, l.results.base
    AT = S.g("AT")
    out = [("the pools", And(okpool(S, q), okpool(S, r), q != r, pmem(S, q) != pmem(S, r)))]
    for nm, p in (("stack", q), ("results", r)):
        e = entry(S, p, j)
        ok = And(fldok(S, e), S.g("V")[node_at(S, e)]) if p is q else And(e.fld == S.c.src.numbers["Position.id"])
        out.append((nm + ": entries", forall([j], Implies(And(0 <= j, j < pcount(S, p)), ok), flat(e))))
        out.append((nm + ": the one of the point", forall([j], Implies(And(0 <= j, j < pcount(S, p)), track_search(S, p, e) == (j == AT[p])), flat(e))))
        out.append((nm + ": its place", And(-1 <= AT[p], AT[p] < pcount(S, p))))
    return out


def found(S, bbox):
    return And(S.g("PR"), inside(S, bbox.base, S.g("kx"), S.g("ky")))


def search_inv(S0, S, l0, l):
    AT = S.g("AT")
    q, r = AT[l.quadrants.base], AT[l.results.base]
    return search_pools(S, l) + [
        ("found once", And(Not(And(q != -1, r != -1)), Implies(found(S, l.bbox), Or(q != -1, r != -1)), Implies(Not(found(S, l.bbox)), r == -1)))]


def search_leaf(S0, S, l0, l):
    n = l.active_node.base
    AT, AT0 = S.g("AT"), S0.g("AT")
    q, r = l.quadrants.base, l.results.base
    return search_pools(S, l) + [
        ("range", And(0 <= l.i, l.i <= cnt(S, n))),
        ("found in this leaf", (AT[r] != -1) == Or(AT0[r] != -1, And(n == S.g("T"), found(S, l.bbox), S.g("J") < l.i))),
        ("the stack", And(AT[q] == AT0[q], pcount(S, q) == pcount(S0, q), pmem(S, q) == pmem(S0, q)))] + [
        ("the stack " + e, S[e][pmem(S, q)] == S0[e][pmem(S0, q)]) for e in ELEM]


def search_post(S0, S, a, r):
    j = Int("j")
    p = r.base
    e = entry(S, p, j)
    AT = S.g("AT")[p]
    return [("entries", forall([j], Implies(And(0 <= j, j < pcount(S, p)), And(e.fld == S.c.src.numbers["Position.id"])), flat(e))),
            ("the point exactly when it is inside, once", forall([j], Implies(And(0 <= j, j < pcount(S, p)), (id_at(S, e) == S.g("K")) == (j == AT)), flat(e))),
            ("found", And(-1 <= AT, AT < pcount(S, p), (AT != -1) == found(S0, a.bbox)))]


SEARCH = POOLS + ["cell:ptr"]


def search_prog(env):
    P = prog(env, track_search)
    P.contracts["qt_search_within"] = Contract(
        lambda S, a: tree(S) + [("the root", And(a.node_union.base == S.g("root"), S.g("AT")[0] == -1)), ("a box", And(a.bbox.base != 0))],
        search_post, SEARCH, ["AT"])
    P.loops[("qt_search_within", 0)] = Loop(search_inv, POOLS, ["AT"], alloc=True)
    P.loops[("qt_search_within", 1)] = Loop(search_leaf, POOLS, ["AT"], alloc=True)
    return P


@contract("%s: qt_search_within: a point is found exactly when it is strictly inside the box, once" % H, weak=True)
def search(env):
    search_prog(env).verify("qt_search_within", GHOSTS)


# ---- inserting

POSF = ["Position.x", "Position.y", "Position.id"]
LEAFF = ["LeafNode." + f for f in ("type", "bbox", "count", "max_positions", "positions", "parent")]
SPLIT = LEAFF + CH + ["NonleafNode.parent", "size:Position"] + POSF + ["Bbox." + c for c in ("xmin", "ymin", "xmax", "ymax")]
TG = ["V", "G", "SL", "O", "A", "T", "J", "root"]
LOCALS = ["node_ul", "node_ur", "node_ll", "node_lr"]


def at_pos(S, p):
    return [S.f(f, p.base, p.off) for f in POSF]


def dup_pre(S, a):
    return tree(S) + [("a leaf", And(S.g("V")[a.node.base], typ(S, a.node.base) == LEAF)), ("a position", a.pos.base != 0)]


def dup_post(S0, S, a, r):
    j = Int("j")
    g = S.g
    x, y, i = at_pos(S, a.pos)
    n = a.node.base
    X, Y, ID = [S.f(f, pos(S, n), j) for f in POSF]
    return [("the id of a point at the same place", Implies(r != -1, And(g("XS")[r] == x, g("YS")[r] == y, Implies(r == g("K"), g("PR"))))),
            ("or none is", Implies(r == -1, forall([j], Implies(And(0 <= j, j < cnt(S, n)), Not(And(X == x, Y == y))), [X, Y, ID])))]


def dup_inv(S0, S, l0, l):
    j = Int("j")
    n = l.node.base
    x, y, i = at_pos(S, l.pos)
    X, Y, ID = [S.f(f, pos(S, n), j) for f in POSF]
    return [("range", And(0 <= l.i, l.i <= cnt(S, n))), ("none so far", forall([j], Implies(And(0 <= j, j < l.i), Not(And(X == x, Y == y))), [X, Y, ID]))]


def split_pre(S, a):
    n = a.node.base
    return tree(S, n) + [("a leaf", And(S.g("V")[n], typ(S, n) == LEAF))]


def split_post(S0, S, a, r):
    n, m = a.node.base, Int("m")
    g, g0 = S.g, S0.g
    old = And(m < S0.next, m != n)
    out = tree(S)
    out.append(("the new node", And(r.base >= S0.next, r.off == 0, r.fld == 0, g("V")[r.base], typ(S, r.base) == NONLEAF, g("G")[r.base] == g0("G")[n], g("SL")[r.base] == g0("SL")[n])))
    out.append(("the root", g("root") == If(g0("root") == n, r.base, g0("root"))))
    out.append(("the old node", Not(g("V")[n])))
    for k in ("V", "G", "SL"):
        out.append(("other nodes: " + k, forall([m], Implies(old, g(k)[m] == g0(k)[m]), [g(k)[m]])))
    out.append(("other nodes: type", forall([m], Implies(old, typ(S, m) == typ(S0, m)), [typ(S, m)])))
    for q in range(4):
        out.append(("other nodes: child %d" % q, forall([m], Implies(And(old, Or(m != g0("G")[n], g0("SL")[n] != q)), child(S, m, q) == child(S0, m, q)), [child(S, m, q)])))
        out.append(("the place in the parent %d" % q, Implies(And(g0("G")[n] != 0, g0("SL")[n] == q), child(S, g0("G")[n], q) == r.base)))
    return out


def four(l):
    """the new leaves by quadrant"""
    return dict(zip((UL, UR, LL, LR), [getattr(l, n).base for n in LOCALS]))


def pick(d, q):
    return If(q == UL, d[UL], If(q == UR, d[UR], If(q == LL, d[LL], d[LR])))


def split_inv(S0, S, l0, l):
    g = S.g
    n, c = l.node.base, four(l)
    j = Int("j")
    q = quad(S0, l.bb.base, g("kx"), g("ky"))
    cq = pick(c, q)
    here = And(g("PR"), g("T") == n)
    out = [("range", And(0 <= l.i, l.i <= cnt(S, n))), ("all are kept", And(sum(cnt(S, c[k]) for k in range(4)) == l.i, *[cnt(S, c[k]) >= 0 for k in range(4)]))]
    a = S0["LeafNode.count"]
    for k in range(4):
        a = Store(a, c[k], cnt(S, c[k]))
    out.append(("only the counts of the new leaves", S["LeafNode.count"] == a))
    for f in POSF:
        a = S0[f]
        for k in range(4):
            a = Store(a, pos(S, c[k]), S[f][pos(S, c[k])])
        out.append(("only the positions of the new leaves: " + f, S[f] == a))
    for k in range(4):
        X, Y, ID = [S.f(f, pos(S, c[k]), j) for f in POSF]
        out.append(("points %d" % k, forall([j], Implies(And(0 <= j, j < cnt(S, c[k])), And(
            ID >= 0, X == g("XS")[ID], Y == g("YS")[ID], Implies(ID == g("K"), And(here, g("J") < l.i, q == k, j == g("JJ"))))), [ID])))
    out.append(("the point", Implies(And(here, g("J") < l.i), And(0 <= g("JJ"), g("JJ") < cnt(S, cq), S.f("Position.id", pos(S, cq), g("JJ")) == g("K")))))
    return out


def split_step(S, S1, l, l1):
    g = S.g
    q = quad(S, l.bb.base, g("kx"), g("ky"))
    S1.ghost["JJ"] = S.c.name(If(And(g("T") == l.node.base, g("J") == l.i), cnt(S, pick(four(l), q)), g("JJ")), "JJ")


def split_leave(S, l):
    g = S.ghost
    n, p, c = l.node.base, l.parent.base, four(l)
    q = quad(S, l.bb.base, g["kx"], g["ky"])
    here = And(g["PR"], g["T"] == n)
    V, G, SL, O, A = [g[k] for k in ("V", "G", "SL", "O", "A")]
    An = A[n]
    V = Store(Store(V, n, False), p, True)
    G, SL = Store(G, p, G[n]), Store(SL, p, SL[n])
    A = Store(Store(A, n, False), p, An)
    for k in range(4):
        V, G, SL = Store(V, c[k], True), Store(G, c[k], p), Store(SL, c[k], k)
        O, A = Store(O, pos(S, c[k]), c[k]), Store(A, c[k], And(An, q == k))
    g["root"] = If(g["root"] == n, p, g["root"])
    g["T"], g["J"] = If(here, pick(c, q), g["T"]), If(here, g["JJ"], g["J"])
    for k, v in zip(("V", "G", "SL", "O", "A"), (V, G, SL, O, A)):
        g[k] = S.c.name(v, k)
    for k in ("root", "T", "J"):
        g[k] = S.c.name(g[k], k)


def insert_prog(env):
    P = prog(env)
    P.contracts["isduplicate"] = Contract(dup_pre, dup_post)
    P.loops[("isduplicate", 0)] = Loop(dup_inv)
    P.contracts["qt_split"] = Contract(split_pre, split_post, SPLIT, TG + ["JJ"])
    P.loops[("qt_split", 0)] = Loop(split_inv, ["LeafNode.count"] + POSF, ["JJ"], step=split_step, leave=split_leave)
    P.contracts["qt_free_node"] = Contract()
    return P


@contract("%s: isduplicate: the id of a stored point at the same place, or -1" % H, weak=True)
def isduplicate(env):
    insert_prog(env).verify("isduplicate", GHOSTS)


@contract("%s: qt_split: the tree keeps its invariant and every point, each in the quadrant it lies in" % H, weak=True)
def split(env):
    insert_prog(env).verify("qt_split", GHOSTS)


def insert_pre(S, a):
    p, g = a.position, S.g
    r = g("root")
    return tree(S) + [("the root", And(a.node_union.base == r, a.dup.base != 0, a.dup.fld == 0)),
                      ("the point", And(p["id"] >= 0, g("XS")[p["id"]] == p["x"], g("YS")[p["id"]] == p["y"], inbox(S, bb(S, r), p["x"], p["y"]),
                                        Implies(p["id"] == g("K"), And(Not(g("PR")), g("kx") == p["x"], g("ky") == p["y"]))))]


def insert_post(S0, S, a, r):
    g, g0, p = S.g, S0.g, a.position
    d = S.f("elem:int", a.dup.base, a.dup.off)
    return tree(S) + [
        ("a duplicate changes nothing", Implies(d != -1, And(*[g(k) == g0(k) for k in TG + ["PR"]]))),
        ("a duplicate is of a stored point at the same place", Implies(d != -1, And(
            g("XS")[d] == p["x"], g("YS")[d] == p["y"], Implies(d == g("K"), g("PR"))))),
        ("every other point is stored as before, and the new one is", Implies(d == -1, g("PR") == Or(g0("PR"), g("K") == p["id"]))),
        ("the new root", Implies(d == -1, And(g("root") == If(r.base != 0, r.base, g0("root")), r.off == 0, r.fld == 0)))]


def cur(l):
    return If(l.type == LEAF, l.leaf.base, l.nonleaf.base)


def insert_enter(S, l):
    S.ghost["PT"] = Store(K(I, z3.BoolVal(False)), S.g("root"), True)


def insert_inv(S0, S, l0, l):
    g = S.g
    n = Int("n")
    PT, V, G = g("PT"), g("V"), g("G")
    c = cur(l)
    x, y = l.position["x"], l.position["y"]
    out = [("where", And(V[c], typ(S, c) == l.type, Or(l.type == LEAF, l.type == NONLEAF), inbox(S, bb(S, c), x, y), PT[c], PT[g("root")],
                         l.loops >= 0, (l.loops == 0) == (c == g("root")))),
           ("what is returned", l.retnode.base == 0),
           ("nodes", forall([n], Implies(PT[n], And(V[n], inbox(S, bb(S, n), x, y), Or(typ(S, n) == NONLEAF, n == c))), [PT[n]])),
           ]
    for q in range(4):
        k = child(S, n, q)
        out.append(("the way %d" % q, forall([n], Implies(And(V[n], typ(S, n) == NONLEAF), PT[k] == And(PT[n], n != c, quad(S, bb(S, n), x, y) == q)), [k])))
    return out


def insert_step(S, S1, l, l1):
    S1.ghost["PT"] = Store(S.g("PT"), cur(l1), True)
    S1.ghost["PT"] = S1.c.name(S1.ghost["PT"], "PT")


def insert_done(S, l):
    """the new point is stored: it may be the one followed"""
    g = S.ghost
    new = l.position["id"] == g["K"]
    for k, v in (("A", If(new, g["PT"], g["A"])), ("T", If(new, l.leaf.base, g["T"])), ("J", If(new, cnt(S, l.leaf.base) - 1, g["J"])),
                 ("PR", Or(g["PR"], new))):
        g[k] = S.c.name(v, k)
    g["ins"] = z3.BoolVal(True)


def insert_exit(S0, S, a, r, l):
    d = S.f("elem:int", a.dup.base, a.dup.off)
    if not z3.is_true(S.ghost["ins"]) and not S.c.branch(d != -1):
        insert_done(S, l)


def insert_start(S, a):
    S.ghost["ins"] = z3.BoolVal(False)


@contract("%s: qt_insert: the point is stored, or is a duplicate; all others stay" % H, weak=True)
def insert(env):
    P = insert_prog(env)
    P.contracts["qt_insert"] = Contract(insert_pre, insert_post, SPLIT + ["elem:int"], TG + ["PR"], exit=insert_exit, start=insert_start)
    P.loops[("qt_insert", 0)] = Loop(insert_inv, [], ["PT"], step=insert_step, enter=insert_enter)
    P.hooks[("qt_insert", "qt_split")] = insert_done
    P.verify("qt_insert", GHOSTS)
