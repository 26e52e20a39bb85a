"""The loop rule.

A loop over concrete items runs natively.  A loop whose number of iterations
is symbolic is verified with an inductive invariant: the invariant holds on
entry, the variables the body assigns (and the arrays it writes) are given
arbitrary values that satisfy it, one arbitrary iteration must preserve it, and
what follows the loop is executed from an arbitrary state that satisfies it
together with the exit condition.

The invariant is the largest inductive subset (Houdini) of candidate facts:
  leaf == entry value, leaf == entry value +- k,  leaf == G(k)  for each ghost
  function G of the contract (k counts finished iterations), leaf == F(leaf')
  for each ghost map F, and facts produced by the contract from the values in
  scope.  They do not refer to the names of local variables.
"""
import os, sys, time
import z3
from fractions import Fraction
from . import sym
from .sym import SNum, SBool, NaN, NAN, Unsupported, Restart, PathEnd, const, term, tbool
from .seq import Poison


DEBUG = os.environ.get("VF_DEBUG")


INF = float("inf")


def leaves(v, path=()):
    """numeric leaves of a value"""
    if isinstance(v, (SNum, SBool, bool, int, float, Fraction)) and not isinstance(v, Poison):
        yield path, v
    elif hasattr(v, "_fields") and hasattr(v, "_copy"):
        for f in v._fields:
            x = getattr(v, f)
            if not isinstance(x, Poison):
                for r in leaves(x, path + (f,)):
                    yield r
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            for r in leaves(x, path + (i,)):
                yield r
    elif isobj(v):
        for f in sorted(v.__dict__):
            x = v.__dict__[f]
            if isinstance(x, (SNum, SBool, bool, int, float, Fraction, tuple)):
                for r in leaves(x, path + (f,)):
                    yield r


def isobj(v):
    """an object of the verified code (a Point, say)"""
    return str(getattr(type(v), "__module__", "")).startswith("karta") and hasattr(v, "__dict__") and not isinstance(v, type)


def rebuild(v, new, path=()):
    if isinstance(v, (SNum, SBool, bool, int, float, Fraction)):
        return new[path]
    if hasattr(v, "_fields") and hasattr(v, "_copy"):
        r = v._copy()
        for f in v._fields:
            x = getattr(v, f)
            if not isinstance(x, Poison):
                object.__setattr__(r, f, rebuild(x, new, path + (f,)))
        return r
    if isinstance(v, tuple):
        return tuple(rebuild(x, new, path + (i,)) for i, x in enumerate(v))
    if isobj(v):
        import copy
        r = copy.copy(v)
        for f in sorted(v.__dict__):
            x = v.__dict__[f]
            if isinstance(x, (SNum, SBool, bool, int, float, Fraction, tuple)):
                object.__setattr__(r, f, rebuild(x, new, path + (f,)))
        return r
    return v


class Info(object):
    def __init__(self):
        self.dead = set()         # refuted candidates
        self.entered = -1
        self.sorts = {}           # leaf -> "real" | "poison"
        self.lists = {}           # list -> index of its ghost
        self.arrays = set()       # uids of arrays written in the body
        self.grow = set()         # growing lists of objects (sseq.Growing)


def eqv(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(tbool(a) == tbool(b))
    if isinstance(a, (SBool, bool)) or isinstance(b, (SBool, bool)):
        return None
    if isinstance(b, NaN) or isinstance(a, NaN):
        return None
    if isinstance(a, float) and a in (float("inf"), float("-inf")) or isinstance(b, float) and b in (float("inf"), float("-inf")):
        if isinstance(a, SNum) or isinstance(b, SNum):
            return None
        return SBool(z3.BoolVal(a == b))
    x, y = sym.both(a, b)
    return SBool(x == y)


class Lazy(object):
    """the candidates not refuted yet; an expression is built only when it is needed"""
    def __init__(self, items, dead):
        self.items, self.dead = items, dead

    def __iter__(self):
        for name, c in self.items:
            if name in self.dead:
                continue
            if not isinstance(c, (SBool, bool)):
                try:
                    c = c()
                except Unsupported:
                    c = None
                if c is None:
                    # not comparable here: no candidate
                    self.dead.add(name)
                    continue
            yield name, c

    def names(self):
        return [n for n, c in self.items if n not in self.dead]


class Loop(object):
    def __init__(self, lid, names, mutated, loc, targets=(), it=None, kind="for"):
        E = sym.E
        self.lid, self.names, self.kind = lid, names, kind
        self.it = it
        self.targets = targets
        self.abstract = False
        self.inside = False
        self.loc = loc
        E.loopno += 1
        cur = tuple(loc.get(n, UNB) for n in names)
        self.vars = tuple(Poison(n) if v is UNB else v for n, v in zip(names, cur))
        if kind == "for":
            n = count(it)
            if n is not None and const(n) is None and E.abstract_loops:
                self.abstract = True
                self.n = n
            elif n is not None and const(n) is None:
                raise Unsupported("symbolic number of iterations in a bounded run")
        else:
            self.abstract = E.abstract_loops and (lid in E.abs_while or E.abs_all)
        if self.abstract:
            self.begin(mutated)

    # ---- abstract execution
    def begin(self, mutated):
        E = sym.E
        E.abstracted = True
        key = (self.lid, tuple(E.dec))
        self.info = E.loops.setdefault(key, Info())
        self.key = key
        self.k = E.fresh("k", "int")
        self.entry = dict(zip(self.names, self.vars))
        self.arrs = [(u, a) for u, a in sorted(E.heap.items()) if u in self.info.arrays]
        self.arr0 = {u: a.snapshot() for u, a in self.arrs}
        # lists that grow by one item in each iteration: their items are given
        # by a ghost function of the contract
        self.lists, self.picked = {}, {}
        from .sseq import SSeq, toseq
        for n in mutated:
            v = self.loc.get(n)
            if isinstance(v, (dict, set)):
                raise Unsupported("a dict or set changed in a symbolic loop")
            if not isinstance(v, (list, SSeq, Picked)):
                continue
            if n not in self.names or any(m != n and w is v for m, w in self.loc.items()):
                raise Unsupported("a shared list changed in a symbolic loop")
            gs = sorted(E.list_ghosts)
            while True:
                i = self.info.lists.setdefault(n, 0)
                if i >= len(gs) and (isinstance(v, Picked) or v == []) and i - len(gs) < len(E.picks):
                    # some iterations append an item: which and what, the contract says
                    p = sorted(E.picks)[i - len(gs)]
                    if isinstance(v, Picked) and (v.name != p or v.log):
                        self.info.lists[n] += 1
                        continue
                    self.picked[n] = Picked(p, (v.ks if isinstance(v, Picked) else ()) + (self.k,))
                    break
                if i >= len(gs):
                    raise Unsupported("the items of the list %s are not known in the loop" % n)
                g = E.list_ghosts[gs[i]]
                s0 = toseq(v)
                if const(s0.n) is not None:
                    if all(same_item(E, s0.f(j), g(j)) for j in range(const(s0.n))):
                        break
                else:
                    j = E.fresh("j", "int")
                    E.push()
                    E.add(z3.And(term(j) >= 0, term(j) < term(s0.n)))
                    ok = same_item(E, s0.f(j), g(j))
                    E.pop()
                    if ok:
                        break
                self.info.lists[n] += 1
            if n not in self.picked:
                self.lists[n] = (s0.n, g, gs[i])
        self.grow = []
        for o in E.growing:
            if o.name in self.info.grow:
                self.grow.append(o.begin(self.k) + (o,))
        # candidates on entry
        if self.info.entered != E.generation:
            self.info.entered = E.generation
            for name, c in self.cands(self.entry, 0, {u: a.snapshot() for u, a in self.arrs}):
                if name not in self.info.dead:
                    if not E.quick_valid(c):
                        self.info.dead.add(name)
                        if DEBUG and name[0] != "le":
                            print("LOOP", self.lid, "fails on entry:", name, file=sys.stderr)
        # arbitrary state
        new = []
        for n in self.names:
            v = self.entry[n]
            if n in self.picked:
                new.append(self.picked[n])
                continue
            if n in self.lists:
                n0, g, _ = self.lists[n]
                l = SSeq(n0 + self.k, g, True)
                l._loop_safe = lambda: True
                new.append(l)
                continue
            if n in self.targets or isinstance(v, Poison):
                new.append(Poison(n))
                continue
            lv = dict(leaves(v))
            if not lv and hasattr(v, "_copy") and hasattr(v, "_fields"):
                new.append(v._copy())
                continue
            if isinstance(v, float) and v in (INF, -INF) and (n, "ext") in self.info.sorts:
                # infinite before the first iteration, any number (or infinite) later
                new.append(v if E.choose(2) == 0 else E.fresh(n, "real"))
                continue
            if isinstance(v, NaN) or isinstance(v, float) and v != v:
                # NaN before the first iteration, any number (or NaN) later
                new.append(v if E.choose(2) == 0 else E.fresh(n, "real"))
                continue
            if v is None and (n, "some") in self.info.sorts:
                # nothing before the first iteration, a value of this form later
                if E.choose(2) == 0:
                    E.assume(self.k == 0)
                    new.append(None)
                else:
                    E.assume(self.k >= 1)
                    form = self.info.sorts[(n, "some")]
                    new.append(rebuild_form(form, lambda s: E.fresh(n, s)))
                continue
            if not lv and v is not None or v is None:
                keep = keepable(v) and (n, "same") not in self.info.sorts
                new.append(v if keep else Poison(n + " (changed in a loop)"))
                continue
            r = {}
            for p, x in lv.items():
                s = self.info.sorts.get((n, p))
                if s != "poison":
                    v1 = self.known((n, p), x, s)
                    if v1 is not None:
                        r[p] = v1
                        continue
                if s == "poison":
                    r[p] = Poison(n)
                elif isinstance(x, (bool, SBool)):
                    r[p] = E.fresh(n, "bool")
                elif s == "real" or not (isinstance(x, int) or isinstance(x, SNum) and x.isint):
                    r[p] = E.fresh(n, "real")
                else:
                    r[p] = E.fresh(n, "int")
            new.append(rebuild(v, r))
        self.vars = tuple(new)
        for u, a in self.arrs:
            a.havoc()
        E.assume(self.k >= 0)
        if self.kind == "for":
            E.assume(self.k <= self.n)
        env = dict(zip(self.names, self.vars))
        for name, c in self.cands(env, self.k, {u: a.snapshot() for u, a in self.arrs}):
            if name not in self.info.dead:
                E.assume(c)
        self.births = E.births
        self.w0 = len(E.writes)
        E.loopuses.add(self.lid)

    def known(self, id_, x, s):
        """the value an equation of the invariant gives for a leaf"""
        E = sym.E
        if isinstance(x, (bool, SBool)) or isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
            return None
        real = s == "real" or not isint(x)
        opts = [(("init", id_), lambda: x), (("up", id_), lambda: x + self.k if isint(x) else None),
                (("down", id_), lambda: x - self.k if isint(x) else None)]
        opts += [(("ghost", g, id_), lambda f=f: f(self.k)) for g, f in E.ghosts.items()]
        for name, f in opts:
            if name in self.info.dead:
                continue
            try:
                v = f()
            except Unsupported:
                continue
            if v is None or isinstance(v, (bool, SBool, NaN)):
                continue
            if isinstance(v, SNum) and v.isint == (not real):
                return v
            if real and not isinstance(v, SNum):
                return SNum(term(v, True))
            if not real and isint(v):
                return SNum(term(v))
            if real:
                return SNum(term(v, True))
        return None

    def cands(self, env, k, arrs, goal=False):
        E = sym.E
        out = []
        lv = []
        for n in self.names:
            if n in self.targets:
                continue
            v = env.get(n)
            e = self.entry.get(n)
            if isinstance(v, Poison) or isinstance(e, Poison) or v is None or isinstance(e, NaN) or isinstance(e, float) and e != e:
                continue
            le = dict(leaves(e))
            for p, x in leaves(v):
                lv.append(((n, p), x, le.get(p)))
        for (id_, x, e) in lv:
            if e is not None:
                out.append((("init", id_), lambda x=x, e=e: eqv(x, e)))
                if isinstance(x, (SNum, int)) and not isinstance(x, bool) and isinstance(e, (int, SNum)) and not isinstance(e, bool):
                    if not isinstance(x, SNum) or x.isint:
                        out.append((("up", id_), lambda x=x, e=e: eqv(x, e + k)))
                        out.append((("down", id_), lambda x=x, e=e: eqv(x, e - k)))
            if isint(x) and isint(e):
                for m, b in self.bounds():
                    for o in (-1, 0, 1):
                        out.append((("le", m, o, id_), lambda x=x, b=b, o=o: SBool(term(x) <= term(b) + o)))
            for g, f in E.ghosts.items():
                out.append((("ghost", g, id_), lambda x=x, f=f: eqv(x, f(k))))
        for m, f in E.maps.items():
            for (i1, x, _) in lv:
                for (i2, y, _) in lv:
                    if i1 != i2 and isinstance(x, (SNum, float, int, Fraction)) and isinstance(y, (SNum, float, int, Fraction)) \
                            and not isinstance(x, bool) and not isinstance(y, bool):
                        out.append((("map", m, i1, i2), lambda x=x, y=y, f=f: eqv(x, f(y))))
        for gname, gen in E.invs.items():
            for name, c in gen(self, lv, env, k):
                if c is not None:
                    out.append((("inv", gname) + (name if isinstance(name, tuple) else (name,)), c))
        for u, fn in arrs.items():
            for name, c in E.arr_cands(u, fn, self.arr0[u], k, self, goal):
                out.append((("arr", u, name), c))
        return Lazy(out, self.info.dead)

    def bounds(self):
        """integers in scope that the loop does not change"""
        E = sym.E
        if not hasattr(self, "_bounds"):
            b = []
            for m, v in sorted(self.loc.items()):
                if m not in self.names and isinstance(v, SNum) and v.isint:
                    b.append((m, v))
            self._bounds = b[:E.nbounds]
        return self._bounds

    def back(self, loc):
        """end of an arbitrary iteration"""
        E = sym.E
        changed = False
        env = {}
        for n in self.names:
            v = loc.get(n, UNB)
            env[n] = Poison(n) if v is UNB else v
            if n in self.targets:
                continue
            e = self.entry[n]
            if e is None and (n, "same") not in self.info.sorts and not isinstance(v, Poison) and not E.inline_gens:
                form = form_of(v)
                if v is not None and form is None or self.info.sorts.get((n, "some"), form) != form:
                    # not of one form: any value
                    self.info.sorts.pop((n, "some"), None)
                    self.info.sorts[(n, "same")] = False
                    changed = True
                elif v is not None and (n, "some") not in self.info.sorts:
                    self.info.sorts[(n, "some")] = form
                    changed = True
                continue
            if isinstance(e, Poison) or e is None:
                continue
            if isinstance(e, NaN) or isinstance(e, float) and e != e:
                if not (isinstance(v, (NaN, float, int, Fraction)) or isinstance(v, SNum)) or isinstance(v, bool):
                    raise Unsupported("NaN replaced by %s in a loop" % type(v).__name__)
                continue
            if isinstance(e, float) and e in (INF, -INF):
                if (n, "ext") not in self.info.sorts and not (isinstance(v, float) and v == e):
                    self.info.sorts[(n, "ext")] = True
                    changed = True
                if not (isinstance(v, (float, int, Fraction)) or isinstance(v, SNum)) or isinstance(v, bool) or \
                        isinstance(v, float) and (v != v or v in (INF, -INF) and v != e):
                    raise Unsupported("infinity replaced in a loop")
                continue
            if keepable(e):
                if v is not e and (n, "same") not in self.info.sorts:
                    self.info.sorts[(n, "same")] = False
                    changed = True
                continue
            le, lb = dict(leaves(e)), dict(leaves(env[n])) if not isinstance(env[n], Poison) else {}
            for p, x in le.items():
                y = lb.get(p)
                s = self.info.sorts.get((n, p))
                if y is None:
                    if s != "poison":
                        self.info.sorts[(n, p)] = "poison"
                        changed = True
                    continue
                xi = isinstance(x, int) or isinstance(x, SNum) and x.isint
                yi = isinstance(y, int) or isinstance(y, SNum) and y.isint
                if xi and not yi and s is None and not isinstance(x, bool):
                    self.info.sorts[(n, p)] = "real"
                    changed = True
        new = set(u for u in E.writes[self.w0:] if u not in self.info.arrays and u in E.heap and u <= self.births)
        if new:
            self.info.arrays |= new
            changed = True
        if changed:
            raise Restart()
        k1 = self.k + 1
        from .sseq import SSeq
        for n, (n0, g, gn) in self.lists.items():
            l = loc.get(n)
            ok = isinstance(l, SSeq) and E.quick_valid(eqv(l.n, n0 + k1))
            if ok:
                j = n0 + self.k
                ok = same_item(E, l.f(j), g(j))
                if ok:
                    j = E.fresh("j", "int")
                    E.push()
                    E.add(z3.And(term(j) >= 0, term(j) < term(n0 + self.k)))
                    ok = same_item(E, E.merge(lambda: l.f(j)), g(j))
                    E.pop()
            if not ok:
                self.info.lists[n] += 1
                raise Restart()
        for n, p in self.picked.items():
            l = loc.get(n)
            if not isinstance(l, Picked) or l.name != p.name or [id(x) for x in l.ks] != [id(x) for x in p.ks] or not l.stepped(E):
                self.info.lists[n] += 1
                raise Restart()
        for f, n, o in self.grow:
            if not o.grew(f, n, self.k):
                raise Unsupported("the items put into the list %s are not known in the loop" % o.name)
        bad = []
        dead0 = len(self.info.dead)
        cs = self.cands(env, k1, {u: a.snapshot() for u, a in self.arrs}, True)
        for name, c in cs:
            if name in self.info.dead:
                continue
            if isinstance(c, list):
                ok = all(E.quick_valid(x() if callable(x) else x) for x in c)
            else:
                ok = E.quick_valid(c)
            if not ok:
                bad.append(name)
        if bad or len(self.info.dead) != dead0:
            if DEBUG:
                print("LOOP", self.lid, "not preserved:", [b for b in bad if b[0] != "le"], file=sys.stderr)
            self.info.dead |= set(bad)
            raise Restart()
        for d in E.decreases:
            d(self, env)
        E.inv_checked(self, cs.names())

    def done(self):
        if self.inside:
            self.inside = False
            sym.E.depth -= 1
            sym.E.loopstack.remove(self)
        if self.kind == "while":
            sym.E.condloop = None

    def __iter__(self):
        E = sym.E
        if self.abstract:
            self.inside = True
            E.depth += 1
            E.loopstack.append(self)
        if not self.abstract:
            if self.kind == "for":
                for x in self.it:
                    yield x
                return
            i = 0
            while True:
                E.condloop = self
                i += 1
                if i > E.max_iter:
                    E.incomplete = True
                    raise PathEnd()
                yield None
        if self.kind == "for":
            if E.branch(term(self.k) < term(self.n)):
                yield item(self.it, self.k)
                self.back(sys._getframe(1).f_locals)
                raise PathEnd()
            for p in self.picked.values():
                p.log, p.ks = [("all", self.n)], p.ks[:-1]
            return
        yield None
        self.back(sys._getframe(1).f_locals)
        raise PathEnd()


class Picked(object):
    """a list to which the iterations of (nested) loops that satisfy a condition append an item.
    E.picks[name] = (counts, keep, same): the number of iterations of each loop, the
    condition and what the item has to satisfy, for the counters of the loops"""
    def __init__(self, name, ks):
        self.name, self.ks, self.log = name, ks, []

    def append(self, v):
        self.log.append(("one", v))

    def _loop_safe(self):
        return True

    def refused(self, *a):
        raise Unsupported("a look into a list of chosen items")

    __iter__ = __len__ = __getitem__ = __setitem__ = __delitem__ = __bool__ = __add__ = extend = pop = insert = refused

    def stepped(self, E):
        counts, keep, same = E.picks[self.name]
        if len(self.log) > 1:
            return False
        if len(self.ks) < len(counts):
            return len(self.log) == 1 and self.log[0][0] == "all" and bool(E.quick_valid(self.log[0][1] == counts[len(self.ks)]))
        from .sseq import tobool
        c = tobool(keep(*self.ks))
        if not self.log:
            return bool(E.quick_valid(sym.Not(c)))
        kind, v = self.log[0]
        return kind == "one" and bool(E.quick_valid(sym.And(c, same(v, *self.ks))))

    def whole(self, E):
        """all iterations of the outermost loop"""
        return not self.ks and len(self.log) == 1 and self.log[0][0] == "all" and bool(E.quick_valid(self.log[0][1] == E.picks[self.name][0][0]))


def row(a):
    """a short array as the tuple of its items"""
    if hasattr(a, "_fn") and getattr(a, "ndim", 0) == 1 and const(a.shape[0]) is not None:
        return tuple(a[i] for i in range(const(a.shape[0])))
    return a


def same_item(E, a, b):
    a, b = row(a), row(b)
    la, lb = dict(leaves(a)), dict(leaves(b))
    if set(la) != set(lb) or not la:
        return False
    for p in la:
        c = eqv(la[p], lb[p])
        if c is None or not E.quick_valid(c):
            return False
    return True


UNB = object()


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, SNum) and x.isint


def form_of(v):
    """numbers, and tuples of them"""
    if isinstance(v, tuple):
        f = tuple(form_of(x) for x in v)
        return None if None in f else f
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, Poison) or isinstance(v, NaN) or isinstance(v, float) and (v != v or v in (INF, -INF)):
        return None
    if isinstance(v, (SNum, int, float, Fraction)):
        return "int" if isint(v) else "real"
    return None


def rebuild_form(f, new):
    return tuple(rebuild_form(x, new) for x in f) if isinstance(f, tuple) else new(f)


def keepable(v):
    """kept through the loop as the same object (checked at the end of an iteration);
    what it holds is havocked when the body writes it"""
    return hasattr(v, "_fn") and hasattr(v, "havoc")


def count(it):
    from .bi import SymRange
    if isinstance(it, SymRange):
        return it.count()
    if isinstance(it, (range, list, tuple, dict, set, str)):
        return len(it)
    f = getattr(it, "_itercount", None)
    if f is not None:
        return f()
    return None


def item(it, k):
    return it.item(k)


def for_(lid, it, names, mutated, targets, loc):
    from .sseq import norm
    return Loop(lid, names, mutated, loc, targets, norm(it), "for")


def while_(lid, names, mutated, loc):
    return Loop(lid, names, mutated, loc, (), None, "while")


def endcond():
    sym.E.condloop = None


def obj(o):
    """an object is created here"""
    E = sym.E
    if E is not None and E.depth > 0:
        E.local_objs.add(id(o))
        E.keep.append(o)
    return o


def mut(o, how):
    """an object is about to be changed"""
    E = sym.E
    if E is not None and E.depth > 0:
        if hasattr(o, "_fields") and hasattr(o, "_copy") or hasattr(o, "_fn") or type(o).__name__ in ("Ref", "Poison"):
            return o
        if getattr(o, "_loop_safe", None) is not None and o._loop_safe():
            return o
        if id(o) in E.local_objs:
            return o
        if hasattr(o, "grew") and how == "append" and E.depth == 1:
            loop = E.loopstack[-1]
            if o.name not in loop.info.grow:
                loop.info.grow.add(o.name)
                raise Restart()
            return o
        raise Unsupported("%s changed (%s) in a symbolic loop" % (type(o).__name__, how))
    return o
