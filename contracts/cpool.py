"""The contracts of pool.h, which both indices use."""
import z3
from z3 import And, Or, Not, Implies, If, Int, Store
from vf.cprog import Contract, Loop, Ptr, forall

# ---- pools

ELEM = ["elem:ptr.base", "elem:ptr.off", "elem:ptr.fld"]


def entry(S, pool, j):
    m = S.f("Pool.members", pool)
    return Ptr(*[S.f(e, m, j) for e in ELEM])


def pcount(S, p): return S.f("Pool.count", p)
def pmem(S, p): return S.f("Pool.members", p)


def samerow(S0, S, b, lo, hi):
    """the elements lo..hi-1 of block b are unchanged"""
    j = Int("j")
    return [forall([j], Implies(And(lo <= j, j < hi), S.f(e, b, j) == S0.f(e, b, j)), [S.f(e, b, j)]) for e in ELEM]


def okpool(S, p):
    return And(p > 0, p < S.next, pcount(S, p) >= 0, pcount(S, p) <= S.f("Pool.size", p), S.f("Pool.size", p) >= 1,
               0 < pmem(S, p), pmem(S, p) < S.next, S.f("size:ptr", pmem(S, p)) >= S.f("Pool.size", p))


POOLS = ["Pool.size", "Pool.count", "Pool.members", "size:ptr"] + ELEM


def others(S0, S, p, what=("Pool.size", "Pool.count", "Pool.members")):
    """other pools are as before; blocks of others too"""
    return [("only pool %s" % k, S[k] == Store(S0[k], p, S.f(k, p))) for k in what]


def blocks(S0, S, *bs):
    out = []
    for e in ELEM:
        a = S0[e]
        for b in bs:
            a = Store(a, b, S[e][b])
        out.append(("only block " + e, S[e] == a))
    return out


def pool_contracts(track):
    """track(S, pool, entry): what the ghost AT follows: the place of the one such entry, or -1"""
    def upd(S0, S, a, r):
        p = a.pool.base
        AT = S0.ghost["AT"]
        c = pcount(S0, p)
        S.ghost["AT"] = Store(AT, p, If(track(S0, p, a.item), c, AT[p]))

    def pop(S0, S, a, r):
        p = a.pool.base
        AT = S0.ghost["AT"]
        S.ghost["AT"] = Store(AT, p, If(AT[p] == a.index, -1, If(AT[p] == pcount(S0, p) - 1, a.index, AT[p])))

    def new(S0, S, a, r):
        S.ghost["AT"] = Store(S0.ghost["AT"], r.base, -1)
    return {
        "pool_new": Contract(
            lambda S, a: [("eight bytes a member", And(a.membersize == 8, a.size >= 1))],
            lambda S0, S, a, r: [("a new pool", And(okpool(S, r.base), pcount(S, r.base) == 0, r.base >= S0.next, pmem(S, r.base) >= S0.next, pmem(S, r.base) != r.base, r.off == 0, r.fld == 0)),
                                 ("only its block", S["size:ptr"] == Store(Store(S0["size:ptr"], r.base, S.f("size:ptr", r.base)), pmem(S, r.base), S.f("size:ptr", pmem(S, r.base))))]
            + others(S0, S, r.base), ["Pool.size", "Pool.count", "Pool.members", "size:ptr"], update=new),
        "pool_resize": Contract(
            lambda S, a: [("a pool", And(okpool(S, a.pool.base), a.pool.off == 0, a.pool.fld == 0, a.membersize == 8))],
            lambda S0, S, a, r: [("a pool", And(okpool(S, a.pool.base), r == 0, pcount(S, a.pool.base) == pcount(S0, a.pool.base),
                                              S.f("Pool.size", a.pool.base) > S0.f("Pool.size", a.pool.base), pmem(S, a.pool.base) >= S0.next))]
            + [("the members " + e, forall([Int("j")], Implies(And(0 <= Int("j"), Int("j") < pcount(S0, a.pool.base)),
                S.f(e, pmem(S, a.pool.base), Int("j")) == S0.f(e, pmem(S0, a.pool.base), Int("j"))), [S.f(e, pmem(S, a.pool.base), Int("j"))])) for e in ELEM]
            + others(S0, S, a.pool.base) + blocks(S0, S, pmem(S, a.pool.base))
            + [("only its block", S["size:ptr"] == Store(S0["size:ptr"], pmem(S, a.pool.base), S.f("size:ptr", pmem(S, a.pool.base))))], POOLS),
        "pool_add": Contract(
            lambda S, a: [("a pool", And(okpool(S, a.pool.base), a.pool.off == 0, a.pool.fld == 0))],
            lambda S0, S, a, r: [("a pool", And(okpool(S, a.pool.base), r == 0, pcount(S, a.pool.base) == pcount(S0, a.pool.base) + 1,
                                              Or(pmem(S, a.pool.base) == pmem(S0, a.pool.base), pmem(S, a.pool.base) >= S0.next))),
                                 ("the item", And(*[x == y for x, y in zip(flat(entry(S, a.pool.base, pcount(S0, a.pool.base))), flat(a.item))]))]
            + [("the members " + e, forall([Int("j")], Implies(And(0 <= Int("j"), Int("j") < pcount(S0, a.pool.base)),
                S.f(e, pmem(S, a.pool.base), Int("j")) == S0.f(e, pmem(S0, a.pool.base), Int("j"))), [S.f(e, pmem(S, a.pool.base), Int("j"))])) for e in ELEM]
            + others(S0, S, a.pool.base) + blocks(S0, S, pmem(S, a.pool.base))
            + [("only its block", S["size:ptr"] == Store(S0["size:ptr"], pmem(S, a.pool.base), S.f("size:ptr", pmem(S, a.pool.base))))], POOLS, update=upd),
        "pool_pop": Contract(
            lambda S, a: [("a member", And(okpool(S, a.pool.base), a.pool.off == 0, a.pool.fld == 0, 0 <= a.index, a.index < pcount(S, a.pool.base)))],
            lambda S0, S, a, r: [("the member", And(pcount(S, a.pool.base) == pcount(S0, a.pool.base) - 1, pmem(S, a.pool.base) == pmem(S0, a.pool.base),
                                                  *[x == y for x, y in zip(flat(r), flat(entry(S0, a.pool.base, a.index)))]))]
            + [("the last takes its place " + e, S[e] == Store(S0[e], pmem(S0, a.pool.base), Store(S0[e][pmem(S0, a.pool.base)], a.index,
                S0.f(e, pmem(S0, a.pool.base), pcount(S0, a.pool.base) - 1)))) for e in ELEM]
            + others(S0, S, a.pool.base, ("Pool.count",)), ["Pool.count"] + ELEM, update=pop),
        "pool_destroy": Contract(),
    }


def flat(p):
    return [p.base, p.off, p.fld]


def resize_inv(S0, S, l0, l):
    j = Int("j")
    i, new, old = l.i, l.newmembers.base, pmem(S, l.pool.base)
    return [("range", And(0 <= i, i <= S.f("Pool.size", l.pool.base)))] + [
        ("copied " + e, forall([j], Implies(And(0 <= j, j < i), S.f(e, new, j) == S0.f(e, old, j)), [S.f(e, new, j)])) for e in ELEM] + [
        ("only the new block " + e, S[e] == Store(S0[e], new, S[e][new])) for e in ELEM]
