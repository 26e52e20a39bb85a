"""Symbolic values and path exploration.

The real function is executed by the Python interpreter on the values defined
here.  Numbers are z3 terms (floating point treated as real arithmetic); a
branch on a symbolic condition forks the execution; every path is explored by
re-executing the function with a recorded list of decisions.
"""
import math, time, itertools, subprocess, os, tempfile, numbers
from fractions import Fraction
import z3
from . import reduce


class PathEnd(BaseException):
    """the current path is finished or infeasible"""


class Restart(BaseException):
    """loop information was refined; the exploration starts again"""


class Unsupported(Exception):
    """the code uses something outside the verifier's reach"""


class TooLong(BaseException):
    pass


E = None        # the current engine


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    return Fraction(v)


def is_num(v):
    return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) or hasattr(v, "dtype") and hasattr(v, "item")


class NaN(object):
    """the floating point value NaN (and anything computed from it)"""
    def _n(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _n
    __neg__ = __abs__ = __pow__ = __rpow__ = __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = _n

    def _f(self, o):
        return False
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _f

    def __ne__(self, o):
        return True
    __hash__ = object.__hash__

    def __repr__(self):
        return "nan"

    def __float__(self):
        return float("nan")

    def __deepcopy__(self, memo):
        return self


NAN = NaN()


def isnan(v):
    if isinstance(v, NaN):
        return True
    if isinstance(v, float):
        return v != v
    if isinstance(v, SNum):
        return False
    if isinstance(v, (int, Fraction)):
        return False
    if hasattr(v, "_elementwise"):
        return v._elementwise(isnan)
    raise Unsupported("isnan of %s" % type(v).__name__)


def term(v, real=None):
    """z3 term of a number; real=True forces the Real sort"""
    if isinstance(v, SNum):
        t = v.t
    elif isinstance(v, SBool):
        t = z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    elif isinstance(v, bool):
        t = z3.IntVal(int(v))
    elif isinstance(v, int):
        t = z3.IntVal(v)
    elif isinstance(v, Fraction):
        t = z3.RealVal(v)
    elif isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in arithmetic")
        # decimal constants in the source mean the decimal number
        t = z3.RealVal(Fraction(repr(v)))
    elif z3.is_expr(v):
        t = v
    elif hasattr(v, "item"):
        return term(v.item(), real)
    else:
        raise Unsupported("number expected, got %s" % type(v).__name__)
    if real and t.sort() == z3.IntSort():
        t = z3.ToReal(t)
    return t


def both(a, b):
    a, b = term(a), term(b)
    if a.sort() != b.sort():
        a = z3.ToReal(a) if a.sort() == z3.IntSort() else a
        b = z3.ToReal(b) if b.sort() == z3.IntSort() else b
    return a, b


def okop(o):
    return isinstance(o, (SNum, SBool, int, float, Fraction)) or (hasattr(o, "item") and hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0)


def isinf(o):
    return isinstance(o, float) and o in (float("inf"), float("-inf"))


def badop(o):
    if isinstance(o, NaN):
        return NAN
    if isinstance(o, float) and o != o:
        return NAN
    return None


class SBool(object):
    __slots__ = ("t",)

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.branch(self.t)

    def _c(self, o):
        if isinstance(o, SBool):
            return o.t
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else SBool(z3.And(self.t, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else SBool(z3.Or(self.t, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else SBool(z3.Xor(self.t, c))
    __rxor__ = __xor__

    def __invert__(self):
        # ~ on a Python bool is integer complement: never zero
        return SNum(z3.If(self.t, z3.IntVal(-2), z3.IntVal(-1)))

    def __eq__(self, o):
        c = self._c(o)
        if c is None:
            return mk(term(self)) == o
        return SBool(self.t == c)

    def __ne__(self, o):
        c = self._c(o)
        if c is None:
            return mk(term(self)) != o
        return SBool(self.t != c)

    def __hash__(self):
        return id(self)

    def _num(self):
        return SNum(term(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __repr__(self):
        return "SBool(%s)" % self.t


def mk(t):
    """wrap a z3 term; constants become Python numbers"""
    if z3.is_bool(t):
        t = z3.simplify(t) if t.num_args() < 4 else t
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    return SNum(t)


def const(v):
    """the Python number a term is, or None"""
    if isinstance(v, SNum):
        if E is not None and v.t.get_id() in E.consts:
            return E.consts[v.t.get_id()]
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        return None
    if isinstance(v, (int, float, Fraction)):
        return v
    return None


def unreal(t):
    """the integer term equal to t, when it is plainly one"""
    if z3.is_int(t):
        return t
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t):
        ch = [unreal(c) for c in t.children()]
        if any(c is None for c in ch):
            return None
        r = ch[0]
        for c in ch[1:]:
            r = r + c if z3.is_add(t) else (r * c if z3.is_mul(t) else r - c)
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        c = unreal(t.arg(0))
        return None if c is None else -c
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = unreal(t.arg(1)), unreal(t.arg(2))
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return None


def cmp_(name):
    def f(self, o):
        n = badop(o)
        if n is not None:
            return name == "ne"
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[name]
        if not okop(o):
            return NotImplemented if name not in ("eq", "ne") else (name == "ne")
        a, b = both(self, o)
        return mk({"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                   "eq": lambda: a == b, "ne": lambda: a != b}[name]())
    return f


class SNum(object):
    __slots__ = ("t",)

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t):
        self.t = t

    @property
    def isint(self):
        return self.t.sort() == z3.IntSort()

    # numpy scalar look
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        from . import npshim
        return npshim.dtype("int64" if self.isint else "float64")

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return E.to_dtype(self, dt)

    def _bin(self, o, f, swap=False):
        n = badop(o)
        if n is not None:
            return n
        if not okop(o):
            return NotImplemented
        a, b = both(self, o)
        if swap:
            a, b = b, a
        return SNum(z3.simplify(f(a, b)))

    def __add__(self, o):
        if isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinf(o):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinf(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinf(o):
            return o
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return E.seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return SNum(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        n = badop(o)
        if n is not None:
            return n
        if not okop(o):
            return NotImplemented
        return E.divide(self, o)

    def __rtruediv__(self, o):
        n = badop(o)
        if n is not None:
            return n
        if not okop(o):
            return NotImplemented
        return E.divide(o, self)

    def __floordiv__(self, o):
        return E.floordiv(self, o)

    def __rfloordiv__(self, o):
        return E.floordiv(o, self)

    def __mod__(self, o):
        return E.mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return E.mod(o, self)

    def __divmod__(self, o):
        return E.floordiv(self, o), E.mod(self, o)

    def __pow__(self, o, m=None):
        c = const(o) if not isinstance(o, SNum) else const(o)
        if c is None:
            return E.uf("pow", self, o)
        if c == 0:
            return 1
        if float(c) == int(c) and 0 < c <= 8:
            r = self
            for _ in range(int(c) - 1):
                r = r * self
            return r
        if float(c) == int(c) and -8 <= c < 0:
            return E.divide(1, self ** int(-c))
        if c == 0.5:
            return E.sqrt(self)
        return E.uf("pow", self, o)

    def __rpow__(self, o):
        if o == 2 and self.isint:
            c = const(self)
            if c is not None:
                return 2 ** c
            return E.pow2(self)
        return E.uf("pow", o, self)

    __lt__ = cmp_("lt")
    __le__ = cmp_("le")
    __gt__ = cmp_("gt")
    __ge__ = cmp_("ge")
    __eq__ = cmp_("eq")
    __ne__ = cmp_("ne")

    def __hash__(self):
        c = const(self)
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return E.branch(self.t != 0)

    def __index__(self):
        c = const(self)
        if isinstance(c, int):
            return c
        raise Unsupported("a concrete integer is needed here")

    def __int__(self):
        raise Unsupported("int() outside the verified modules")

    def __float__(self):
        raise Unsupported("float() outside the verified modules")

    def __round__(self, n=None):
        return E.round(self, n)

    def __floor__(self):
        return E.floor(self)

    def __ceil__(self):
        return -E.floor(-self)

    def __trunc__(self):
        return E.trunc(self)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "Sym(%s)" % self.t


def tbool(v):
    """z3 Bool of a condition"""
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_expr(v):
        return v
    if isinstance(v, SNum):
        return v.t != 0
    if hasattr(v, "item") and getattr(v, "ndim", 0) == 0:
        return z3.BoolVal(bool(v))
    raise Unsupported("condition expected, got %s" % type(v).__name__)


def And(*a):
    return SBool(z3.And(*[tbool(x) for x in a])) if a else True


def Or(*a):
    return SBool(z3.Or(*[tbool(x) for x in a])) if a else False


def Not(a):
    return SBool(z3.Not(tbool(a)))


def Implies(a, b):
    return SBool(z3.Implies(tbool(a), tbool(b)))


def If(c, a, b):
    c = tbool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, tbool(a), tbool(b)))
    if isinstance(a, NaN) or isinstance(b, NaN):
        return a if E.branch(c) else b
    if isinstance(a, tuple):
        return tuple(If(c, x, y) for x, y in zip(a, b))
    x, y = both(a, b)
    return SNum(z3.If(c, x, y))


def smin(a, b):
    a0, b0 = badop(a), badop(b)
    if a0 is not None:
        return b
    if b0 is not None:
        return a
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return min(ca, cb)
    x, y = both(a, b)
    return SNum(z3.If(x <= y, x, y))


def smax(a, b):
    a0, b0 = badop(a), badop(b)
    if a0 is not None:
        return b
    if b0 is not None:
        return a
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return max(ca, cb)
    x, y = both(a, b)
    return SNum(z3.If(x >= y, x, y))


def squares(t):
    """is the term a sum of squares"""
    if z3.is_add(t):
        return all(squares(c) for c in t.children())
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_mul(t):
        fs = t.children()
        if z3.is_rational_value(fs[0]):
            if fs[0].numerator_as_long() < 0:
                return False
            fs = fs[1:]
        ids = [f.get_id() for f in fs]
        return all(ids.count(i) % 2 == 0 for i in ids)
    if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)):
        return t.arg(1).denominator_as_long() == 1 and t.arg(1).numerator_as_long() % 2 == 0
    return False


class Obl(object):
    def __init__(self, name, status, backend, dt, why="", model=None):
        self.name, self.status, self.backend, self.time, self.why, self.model = name, status, backend, dt, why, model


class Local(object):
    """branches inside E.merge"""
    def __init__(self, prefix):
        self.prefix, self.dec, self.alts, self.conds, self.facts = prefix, [], [], [], []

    def branch(self, eng, c):
        k = len(self.dec)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t = eng.check(c) != z3.unsat
            f = eng.check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.alts.append(self.dec + [False])
                v = True
            else:
                v = t
        self.dec.append(v)
        c = c if v else z3.Not(c)
        eng.solver.add(c)
        eng.addlin(c)
        eng.solver.add(c)
        self.conds.append(c)
        return v


def mergeval(c, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(mergeval(c, x, y) for x, y in zip(a, b))
    if a is b:
        return a
    ok = (SNum, SBool, bool, int, float, Fraction)
    if isinstance(a, ok) and isinstance(b, ok):
        return If(SBool(c), a, b)
    raise Unsupported("merging values of type %s" % type(a).__name__)


class Engine(object):
    def __init__(self, root, timeout=10000, deadline=None, force_abstract=False, max_paths=4000):
        self.root = root
        self.timeout = timeout
        self.deadline = deadline
        self.force_abstract = force_abstract
        self.max_paths = max_paths
        self.obls = []
        self.trusted = set()
        self.functions = set()
        self.axioms_used = set()
        self.solver_s = 0.0
        self.loops = {}          # persistent loop information (Houdini)
        self.consts = {}
        self.backends = {}
        self.soft = False
        self.nofork_div = False
        self.merge_ifs = True   # conditionals that only assign numbers become conditional values
        self.loose_div = False   # quotients are arbitrary numbers (a weaker fact, for contracts marked weak)
        self.abstract_loops = True
        self.abs_while = set()
        self.abs_all = False
        self.loopuses = set()
        self.ghosts = {}         # name -> function of the iteration count
        self.strnums = {}        # text -> the arbitrary number it stands for
        self.picks = {}          # name -> what nested loops put into a list, see loops.Picked
        self.list_ghosts = {}    # name -> function giving the items of a list built in a loop
        self.maps = {}           # name -> function applied to a leaf
        self.invs = {}           # name -> generator of (name, fact)
        self.opaque_invs = False
        self.strong = False      # try vf.reduce on what z3 does not answer
        self.cell_ghosts = {}    # name -> function of the iteration count: the cell looked at
        self.columns = False     # arrays are also filled column by column
        self.arr_ghosts = {}     # name -> function of the skolem index
        self.arr_inv = None
        self.decreases = []
        self.skolem = None
        self.inline_gens = False
        self.nbounds = 4
        self.inv_timeout = 400
        self.feas_timeout = 300
        self.max_iter = 60
        self.incomplete = False
        self.symbolic_pi = True
        self.generation = 0
        self.proved_lemmas = {}
        self.setup = None
        self.reset([])

    # ---- exploration -----------------------------------------------------
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        self.pc = []
        self.alts = []
        self.names = itertools.count()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_timeout)
        self.lin = z3.Solver()          # the facts with products as opaque constants
        self.lin.set("timeout", 400)
        self.nonlin = False
        self.abstracted = False
        self.inputs = {}
        self.memo = {}
        self.byname = {}
        self.uids = itertools.count()
        self.heap = {}
        self.births = 0
        self.writes = []
        self.loopno = 0
        self.condloop = None
        self.seen_obl = set()
        self.depth = 0
        self.local_objs = set()
        self.keep = []
        self.uf_used = set()
        self.foralls = []
        self.witness = []
        self.extremes = []
        self.local = None
        self.marks = []
        self.loopstack = []
        self.growing = []        # lists of objects that grow by an item in each iteration (sseq.Growing)
        if self.symbolic_pi:
            self.add(z3.And(self.PI > z3.RealVal("3.14159265358979"), self.PI < z3.RealVal("3.14159265358980")))

    def explore(self, fn):
        global E
        E = self
        restarts = 0
        while True:
            self.generation += 1
            self.obls = []
            stack = [[]]
            paths = 0
            done = 0
            try:
                while stack:
                    if self.deadline and time.time() > self.deadline:
                        raise TooLong("time budget of the contract exhausted")
                    prefix = stack.pop()
                    self.reset(prefix)
                    paths += 1
                    if paths > self.max_paths:
                        raise Unsupported("more than %d paths" % self.max_paths)
                    try:
                        fn(self)
                        done += 1
                    except PathEnd:
                        pass
                    stack.extend(self.alts)
                break
            except Restart:
                restarts += 1
                if restarts > 400:
                    raise Unsupported("loop inference does not settle")
                continue
        self.paths = paths
        self.done = done
        return self.obls

    def check(self, *fs, timeout=None):
        t0 = time.time()
        if fs and self.opaque_unsat(*fs):
            self.solver_s += time.time() - t0
            return z3.unsat
        if self.opaque_invs and self.nonlin:
            return z3.unknown
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*fs)
        if timeout:
            self.solver.set("timeout", self.feas_timeout)
        self.solver_s += time.time() - t0
        return r

    def addlin(self, f):
        g = reduce.opaque(f)
        if g is not None:
            self.lin.add(g)
        if g is not f:
            self.nonlin = True

    def opaque_unsat(self, *fs):
        """unsatisfiable even with products of unknowns as arbitrary constants"""
        gs = [reduce.opaque(f) for f in fs]
        if not self.nonlin and all(g is f for g, f in zip(gs, fs)) or any(g is None for g in gs):
            return False
        return self.lin.check(*gs) == z3.unsat

    def add(self, f):
        self.pc.append(f)
        self.solver.add(f)
        self.addlin(f)
        if self.local is not None:
            self.local.facts.append((len(self.local.conds), f))

    def push(self):
        """a scope for temporary facts"""
        self.marks.append((len(self.pc), dict(self.memo), self.local))
        self.local = None
        self.solver.push()
        self.lin.push()

    def pop(self):
        n, self.memo, self.local = self.marks.pop()
        del self.pc[n:]
        self.solver.pop()
        self.lin.pop()

    def instantiate(self, *ks):
        """uses the facts that hold for all indices at the given ones"""
        for n, p in list(self.foralls):
            for k in ks:
                self.add(z3.Implies(z3.And(term(k) >= 0, term(k) < term(n)), tbool(p(k))))

    def lemma(self, name, n, f, sort="int", timeout=None, hints=None):
        """a fact about n numbers, proved once for arbitrary ones; the result adds
        an instance of it to what is known"""
        key = ("lemma", name)
        if key not in self.proved_lemmas:
            vs = [(z3.Int if sort == "int" else z3.Real)("lem!%s!%d" % (name, i)) for i in range(n)]
            ws = [SNum(v) for v in vs]
            t = tbool(f(*ws))
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", timeout or self.timeout)
            for h in (hints(*ws) if hints else []):
                s.add(tbool(h))
            s.add(z3.Not(t))
            r = s.check()
            self.solver_s += time.time() - t0
            self.proved_lemmas[key] = r == z3.unsat
        ok = self.proved_lemmas[key]
        self.obls.append(Obl("lemma: " + name, "proved" if ok else "unknown", "z3", 0.0))
        if not ok:
            return lambda *a: None
        return lambda *a: self.add(tbool(f(*[SNum(term(x)) for x in a])))

    def note(self, what):
        self.obls.append(Obl(what, "proved", "z3", 0.0))

    def simp(self, v):
        from .npshim import simp
        return simp(v)

    def merge(self, fn):
        """the value of fn with its branches merged into conditionals"""
        if self.local is not None:
            outer = self.local
        else:
            outer = None
        stack, out, exported = [[]], [], []
        while stack:
            pre = stack.pop()
            self.push()
            loc = self.local = Local(pre)
            try:
                v = fn()
                out.append((list(loc.conds), v))
            except PathEnd:
                pass
            finally:
                for m, f in loc.facts:
                    exported.append(z3.Implies(z3.And(*loc.conds[:m]), f) if m else f)
                self.pop()
            stack.extend(loc.alts)
            if len(out) > 64:
                raise Unsupported("too many branches to merge")
        self.local = outer
        for f in exported:
            self.add(f)
        if not out:
            raise PathEnd()
        r = out[-1][1]
        for conds, v in reversed(out[:-1]):
            r = mergeval(z3.And(*conds) if conds else z3.BoolVal(True), v, r)
        return r

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise TooLong("time budget of the contract exhausted")
        if self.local is not None:
            return self.local.branch(self, c)
        k = len(self.dec)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t = self.check(c) != z3.unsat
            f = self.check(z3.Not(c)) != z3.unsat
            if not t and not f:
                raise PathEnd()
            if t and f:
                if self.condloop is not None and self.abstract_loops and not self.condloop.abstract:
                    self.abs_while.add(self.condloop.lid)
                    raise Restart()
                self.alts.append(self.dec + [False])
                v = True
            else:
                v = t
        self.dec.append(v)
        self.add(c if v else z3.Not(c))
        return v

    def choose(self, n=2):
        """a free choice in range(n), explored exhaustively"""
        if self.local is not None:
            raise Unsupported("a choice inside a merged element")
        for i in range(n - 1):
            k = len(self.dec)
            if k < len(self.prefix):
                v = self.prefix[k]
            else:
                self.alts.append(self.dec + [False])
                v = True
            self.dec.append(v)
            if v:
                return i
        return n - 1

    def assume(self, c):
        c = tbool(c)
        self.add(c)

    def feasible(self):
        return self.check() != z3.unsat

    # ---- fresh values ----------------------------------------------------
    def fresh(self, base, sort="real"):
        n = "%s!%d" % (base, next(self.names))
        if sort == "real":
            return SNum(z3.Real(n))
        if sort == "int":
            return SNum(z3.Int(n))
        return SBool(z3.Bool(n))

    def real(self, name):
        v = SNum(z3.Real(name))
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        v = SNum(z3.Int(name))
        self.inputs[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        v = SBool(z3.Bool(name))
        self.inputs[name] = v
        return v

    # ---- obligations -----------------------------------------------------
    def prove(self, name, f, hints=(), timeout=None, what=""):
        """one verification condition: path condition and not f is unsatisfiable"""
        if f is True:
            self.obls.append(Obl(name, "proved", "syntactic", 0.0))
            return True
        if f is False:
            f = SBool(z3.BoolVal(False))
        if isinstance(f, (list, tuple)):
            return all([self.prove("%s.%d" % (name, i), g, hints, timeout) for i, g in enumerate(f)])
        t = tbool(f)
        t0 = time.time()
        status, backend, why, model = self.decide(t, [tbool(h) for h in hints], timeout or self.timeout)
        dt = time.time() - t0
        self.solver_s += dt
        if status == "refuted" and self.uf_used:
            status, why = "unknown", "satisfiable with the axioms given for %s: %s" % (", ".join(sorted(self.uf_used)), why)
        if status == "refuted" and (self.abstracted or self.soft):
            why = "(after loop or function abstraction) " + why
        self.obls.append(Obl(name, status, backend, dt, why, model))
        self.obls[-1].abstracted = self.abstracted
        self.backends[backend] = self.backends.get(backend, 0) + 1
        # later obligations of this path may use it only when proved
        if status == "proved":
            self.add(t)
        return status == "proved"

    def valid(self, f, timeout=None):
        """is f implied (used by loop inference; no obligation recorded)"""
        t = tbool(f)
        return self.decide(t, [], timeout or self.timeout)[0] == "proved"

    def quick_valid(self, f):
        t = z3.simplify(tbool(f))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.opaque_invs and self.nonlin:
            # products of unknowns as arbitrary constants: sound, and quick to refute
            return self.opaque_unsat(z3.Not(t))
        r = self.check(z3.Not(t), timeout=self.inv_timeout)
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.inv_timeout * 3)
            s.add(*self.pc)
            s.add(z3.Not(t))
            t0 = time.time()
            r = s.check()
            if r == z3.unknown and self.strong:
                from . import reduce
                if reduce.prove(list(self.pc), t, self.inv_timeout * 5):
                    r = z3.unsat
            self.solver_s += time.time() - t0
        return r == z3.unsat

    def inv_checked(self, loop, names):
        key = ("inv", loop.lid)
        self.obls.append(Obl("loop %s: invariant holds on entry and is preserved (%d facts)" % (loop.lid, len(names)),
                             "proved", "z3", 0.0))

    def inrange(self, i, n):
        c, m = const(i), const(n)
        if c is not None and m is not None:
            if not 0 <= c < m:
                raise IndexError("vertex index")
            return
        t = z3.simplify(z3.And(term(i) >= 0, term(i) < term(n)))
        if z3.is_true(t) or t.get_id() in self.seen_obl:
            return
        self.seen_obl.add(t.get_id())
        self.keep.append(t)
        self.prove("index in range", SBool(t))

    def listlike(self, v, loop):
        raise Unsupported("a list or dict changed in a symbolic loop")

    def arr_cands(self, u, fn, fn0, k, loop, goal=False):
        """what holds of an array the loop writes, at an arbitrary index (the skolem
        constants of the contract, about which the loop knows nothing): the rows
        before iteration k hold the given values, the others are unchanged"""
        s = self.skolem
        out = []
        if self.arr_inv is not None:
            return list(self.arr_inv(u, fn, fn0, k, loop))
        if s is None or self.heap[u].ndim != len(s):
            return out
        from .loops import eqv

        def done(f, c):
            if not goal or self.columns:
                e = eqv(fn(*s), self.merge(lambda: f(*s)))
                return None if e is None else Implies(s[0] < k + c, e)
            # a statement for all indices: the rows done before, and the new one
            m = k - 1 + c
            e = eqv(fn(*s), self.merge(lambda: f(*s)))
            if e is None:
                return None

            def new():
                x = (m,) + tuple(s[1:])
                return eqv(fn(*x), f(*x))
            return [Implies(s[0] < m, e), new]
        v, v0 = fn(*s), fn0(*s)
        for c in (0, 1):
            for g, f in self.arr_ghosts.items():
                out.append((("done", g, c), lambda f=f, c=c: done(f, c)))
            e = eqv(v, v0)
            if e is not None:
                out.append((("rest", c), Implies(Not(s[0] < k + c), e)))
        for g, f in self.cell_ghosts.items():
            e = eqv(v, f(k))
            if e is not None:
                out.append((("cell", g), e))
        if len(s) == 2 and self.columns:
            # one row (some integer in scope), column by column
            for m, b in loop.bounds():
                part = And(s[0] == b, s[1] < k)
                for g, f in self.arr_ghosts.items():
                    e = eqv(v, self.merge(lambda: f(*s)))
                    if e is not None:
                        out.append((("columns", g, m), Implies(part, e)))
                e = eqv(v, v0)
                if e is not None:
                    out.append((("columns", "rest", m), Implies(Not(part), e)))
        return out

    def decide(self, t, hints, timeout):
        t = z3.simplify(t)
        if z3.is_true(t):
            return "proved", "syntactic", "", None
        neg = z3.Not(t)
        if self.opaque_unsat(neg, *hints):
            return "proved", "z3", "", None
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.add(*self.pc)
        s.add(*hints)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", "", None
        if r == z3.sat:
            m = s.model()
            return "refuted", "z3", "counterexample: %s" % str(m)[:800], self.model_inputs(m)
        # other strategies
        if self.strong:
            from . import reduce
            if reduce.prove(list(self.pc) + list(hints), t, timeout):
                return "proved", "z3-reduced", "", None
        s2 = z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver() \
            if False else z3.SolverFor("QF_NRA")
        try:
            s2.set("timeout", int(timeout))
            s2.add(*self.pc)
            s2.add(*hints)
            s2.add(neg)
            r = s2.check()
            if r == z3.unsat:
                return "proved", "z3-nlsat", "", None
            if r == z3.sat:
                m = s2.model()
                return "refuted", "z3-nlsat", "counterexample: %s" % str(m)[:800], self.model_inputs(m)
        except z3.Z3Exception:
            pass
        r = self.cvc5(s.to_smt2(), timeout)
        if r == "unsat":
            return "proved", "cvc5", "", None
        return "unknown", "z3+cvc5", "no answer within %d ms" % timeout, None

    def cvc5(self, smt, timeout):
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout), "--nl-cov", "-q"], input="(set-logic ALL)\n" + smt,
                               text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout / 1000.0 + 5)
            return p.stdout.strip().splitlines()[0] if p.stdout.strip() else "unknown"
        except Exception:
            return "unknown"

    def model_inputs(self, m):
        out = {}
        for n, v in self.inputs.items():
            try:
                x = m.eval(v.t, model_completion=True)
                if z3.is_bool(x):
                    out[n] = z3.is_true(x)
                elif z3.is_int_value(x):
                    out[n] = x.as_long()
                elif z3.is_rational_value(x):
                    out[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                elif z3.is_algebraic_value(x):
                    out[n] = float(x.approx(20).as_fraction())
            except Exception:
                pass
        return out

    # ---- arithmetic ------------------------------------------------------
    def nonzero(self, d):
        """forks on a zero divisor; True when the divisor is not zero"""
        c = const(d)
        if c is not None:
            return c != 0
        return self.branch(term(d) != 0)

    def divide(self, a, b, c_division=False):
        if badop(a) is not None or badop(b) is not None:
            return NAN
        if not isinstance(a, SNum) and not isinstance(b, SNum) and not isinstance(a, SBool) and not isinstance(b, SBool):
            if b == 0:
                if c_division:
                    return NAN
                raise ZeroDivisionError("division by zero")
            return a / b if isinstance(a, float) or isinstance(b, float) else Fraction(a) / Fraction(b)
        if not self.nofork_div:
            if not self.nonzero(b):
                if c_division:
                    return NAN
                raise ZeroDivisionError("division by zero")
        x, y = term(a, True), term(b, True)
        cb = const(b)
        if cb is not None:
            return SNum(z3.simplify(x / y))
        if y.eq(self.PI) or z3.is_mul(y) and y.num_args() == 2 and y.arg(1).eq(self.PI) and z3.is_rational_value(y.arg(0)):
            if not self.memo.get("ipi"):
                self.memo["ipi"] = True
                self.add(self.IPI * self.PI == 1)
            return SNum(z3.simplify(x * self.IPI if y.eq(self.PI) else x * self.IPI / y.arg(0)))
        # name the quotient: q*y == x
        key = ("q", x.get_id(), y.get_id())
        if key not in self.memo:
            q = self.named(key, "q", x, y)
            if not self.loose_div:
                self.add(z3.Implies(y != 0, q * y == x) if self.nofork_div else q * y == x)
            self.memo[key] = (q, x, y)
        return SNum(self.memo[key][0])

    def floordiv(self, a, b):
        for v in (a, b):
            if badop(v) is not None:
                return NAN
        if not isinstance(a, SNum) and not isinstance(b, SNum):
            return a // b
        if not self.nonzero(b):
            raise ZeroDivisionError("division by zero")
        x, y = both(a, b)
        if x.sort() == z3.IntSort():
            cb = const(b)
            if cb is not None and cb > 0:
                return SNum(x / y)
            # floor division for either sign, named
            key = ("fd", x.get_id(), y.get_id())
            if key not in self.memo:
                q = z3.Int("fd!%d" % next(self.names))
                r = x - q * y
                self.add(z3.If(y > 0, z3.And(r >= 0, r < y), z3.And(r <= 0, r > y)))
                self.memo[key] = (q, x, y)
            return SNum(self.memo[key][0])
        cb = const(b)
        if cb is not None and isinstance(a, SNum):
            # whole multiples of the divisor come out: floor((t + b m)/b) = m + floor(t/b)
            fb = Fraction(cb) if not isinstance(cb, float) else Fraction(repr(cb))
            whole, rest = [], []
            t = z3.simplify(term(a, True), som=True)
            parts = t.children() if z3.is_add(t) else [t]
            for p in parts:
                c, f = Fraction(1), p
                if z3.is_rational_value(p):
                    c, f = Fraction(p.numerator_as_long(), p.denominator_as_long()), None
                elif z3.is_mul(p) and p.num_args() == 2 and z3.is_rational_value(p.arg(0)):
                    c, f = Fraction(p.arg(0).numerator_as_long(), p.arg(0).denominator_as_long()), p.arg(1)
                if (f is None or z3.is_app_of(f, z3.Z3_OP_TO_REAL)) and (c / fb).denominator == 1:
                    whole.append(z3.RealVal(c / fb) * f if f is not None else z3.RealVal(c / fb))
                else:
                    rest.append(p)
            if whole and not rest:
                return SNum(z3.simplify(z3.Sum(whole)))
            if whole:
                r = z3.Sum(rest) if rest else z3.RealVal(0)
                return self.floordiv(SNum(z3.simplify(r)), b) + SNum(z3.simplify(z3.Sum(whole)))
            k = self.part(t, fb)
            return SNum(z3.ToReal(k))
        d = self.divide(a, b)
        if not isinstance(d, SNum):
            import math
            return float(math.floor(d))
        # a named integer part: k <= d < k + 1
        t = z3.simplify(d.t)
        return SNum(z3.ToReal(self.part(t, 1)))

    def part(self, t, fb):
        """the whole number k with k fb <= t < (k + 1) fb"""
        k = self.named(("fl", t.get_id(), fb), "fl", t, sort="int")
        if ("flf", k.get_id()) not in self.memo:
            kb = z3.ToReal(k) * z3.RealVal(fb) if fb != 1 else z3.ToReal(k)
            f = z3.RealVal(fb)
            self.memo[("flf", k.get_id())] = True
            self.add(z3.And(kb <= t, t < kb + f) if fb > 0 else z3.And(kb >= t, t > kb + f))
        return k

    def floor(self, v):
        if not isinstance(v, SNum):
            import math
            return math.floor(v)
        if v.isint:
            return v
        r = self.floordiv(v, 1)
        i = unreal(z3.simplify(r.t)) if isinstance(r, SNum) else z3.IntVal(int(r))
        if i is None:
            i = z3.ToInt(r.t)
        return SNum(i)

    def mod(self, a, b):
        if isinstance(a, str):
            return a
        for v in (a, b):
            if badop(v) is not None:
                return NAN
        if not isinstance(a, SNum) and not isinstance(b, SNum):
            return a % b
        q = self.floordiv(a, b)
        return a - q * b

    def trunc(self, v):
        if isinstance(v, SNum):
            if v.isint:
                return v
            i = unreal(z3.simplify(v.t))
            if i is not None:
                return SNum(i)
            f = self.floor(v).t
            fr = z3.ToReal(f)
            return SNum(z3.If(z3.Or(v.t >= 0, v.t == fr), f, f + 1))
        if isinstance(v, SBool):
            return SNum(term(v))
        if isinstance(v, NaN):
            raise ValueError("cannot convert float NaN to integer")
        return int(v)

    def tofloat(self, v):
        if isinstance(v, SNum):
            return SNum(term(v, True))
        if isinstance(v, SBool):
            return SNum(term(v, True))
        if isinstance(v, (NaN, Fraction)):
            return v
        return float(v)

    def round(self, v, n=None):
        if not isinstance(v, SNum):
            return round(v) if n is None else round(v, n)
        if n is not None:
            return self.uf("round%s" % n, v)
        if v.isint:
            return v
        # half to even
        f = self.floor(v).t
        d = v.t - z3.ToReal(f)
        h = z3.RealVal(1) / 2
        return SNum(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def named(self, key, base, *keep, sort="real"):
        """the name of a value that is a function of its arguments: the same in every scope"""
        if key not in self.byname:
            self.byname[key] = ((z3.Int if sort == "int" else z3.Real)("%s!%d" % (base, next(self.names))), keep)
        return self.byname[key][0]

    def sqrt(self, v, c=False, nofork=False):
        if isinstance(v, NaN):
            return v
        if not isinstance(v, SNum):
            f = Fraction(v) if not isinstance(v, float) else Fraction(repr(v))
            if f < 0:
                if c:
                    return NAN
                raise ValueError("math domain error")
            import math as m
            n, d = m.isqrt(f.numerator), m.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Fraction(n, d)
            v = SNum(z3.RealVal(f))
        x = z3.simplify(term(v, True), som=True)
        if not nofork and not squares(term(v, True)) and self.branch(x < 0):
            if c:
                return NAN
            raise ValueError("math domain error")
        key = ("sqrt", x.get_id())
        if key not in self.memo:
            r = self.named(key, "sqrt", x)
            self.add(z3.And(r >= 0, r * r == x))
            self.memo[key] = (r, x)
        return SNum(self.memo[key][0])

    def pow2(self, k):
        f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        t = f(k.t)
        self.add(z3.Implies(k.t >= 0, t >= 1))
        self.add(z3.Implies(k.t >= 1, t == 2 * f(k.t - 1)))
        return SNum(t)

    # uninterpreted mathematical functions with the axioms named in trusted
    def uf(self, name, *args):
        if any(isinstance(a, NaN) for a in args):
            return NAN
        ts = [z3.simplify(term(a, True)) for a in args]
        self.uf_used.add(name)
        if name in ("sin", "cos", "tan"):
            s, c = self.trig(ts[0])
            if name == "sin":
                return SNum(s)
            if name == "cos":
                return SNum(c)
            return self.divide(SNum(s), SNum(c), c_division=True)
        f = z3.Function("m_" + name, *([z3.RealSort()] * (len(ts) + 1)))
        r = f(*ts)
        key = ("uf", name) + tuple(t.get_id() for t in ts)
        if key not in self.memo:
            self.memo[key] = (r, ts)
            h = getattr(self, "ax_" + name, None)
            if h:
                h(r, *ts)
        return SNum(r)

    PI = z3.Real("pi")

    def pi(self):
        return SNum(self.PI)

    def _sc(self, x):
        s = z3.Function("m_sin", z3.RealSort(), z3.RealSort())(x)
        c = z3.Function("m_cos", z3.RealSort(), z3.RealSort())(x)
        key = ("sc", x.get_id())
        if key not in self.memo:
            self.memo[key] = (x, s, c)
            self.trusted.add("sin^2 + cos^2 = 1")
            self.add(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1))
        return s, c

    def ax_atan2(self, r, y, x):
        self.trusted.add("atan2: -pi < r <= pi, and (x, y) = |(x, y)| (cos r, sin r)")
        s, c = self.trig(r)
        h = self.sqrt(SNum(z3.simplify(x * x + y * y)), nofork=True).t
        self.add(z3.And(r > -self.PI, r <= self.PI, h * c == x, h * s == y))

    IPI = z3.Real("invpi")

    def pinorm(self, x):
        """a polynomial as (multiples of pi, other terms); pi * (1/pi) cancels"""
        t = z3.simplify(x, som=True)
        out, pis = {}, Fraction(0)
        for m in (t.children() if z3.is_add(t) else [t]):
            c, fs = Fraction(1), []
            todo = [m]
            while todo:
                f = todo.pop(0)
                if z3.is_mul(f):
                    todo = list(f.children()) + todo
                elif z3.is_rational_value(f):
                    c *= Fraction(f.numerator_as_long(), f.denominator_as_long())
                elif z3.is_app_of(f, z3.Z3_OP_UMINUS):
                    c = -c
                    todo = [f.arg(0)] + todo
                elif z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_rational_value(f.arg(1)) and f.arg(1).denominator_as_long() == 1 \
                        and 0 < f.arg(1).numerator_as_long() < 9:
                    todo = [f.arg(0)] * f.arg(1).numerator_as_long() + todo
                else:
                    fs.append(f)
            while any(f.eq(self.PI) for f in fs) and any(f.eq(self.IPI) for f in fs):
                for q in (self.PI, self.IPI):
                    for i, f in enumerate(fs):
                        if f.eq(q):
                            del fs[i]
                            break
            if len(fs) == 1 and fs[0].eq(self.PI):
                pis += c
                continue
            if len(fs) == 2 and c % 2 == 0 and any(f.eq(self.PI) for f in fs) and \
                    any(z3.is_app_of(f, z3.Z3_OP_TO_REAL) for f in fs):
                self.trusted.add("sin and cos have period 2 pi")
                continue
            if c == 0:
                continue
            key = tuple(sorted(f.get_id() for f in fs))
            o = out.get(key)
            out[key] = ((o[0] if o else 0) + c, fs)
        return pis, [(c, fs) for k, (c, fs) in sorted(out.items()) if c != 0]

    def trig(self, x):
        """sin and cos of a term, reduced by quarter turns, whole turns and sign"""
        pis, rest = self.pinorm(x)
        if pis or rest and rest[0][0] < 0:
            self.trusted.add("sin and cos of t + pi/2, t + 2 k pi and -t in terms of those of t")
        pis = pis % 2
        q = int(pis * 2)            # quarter turns
        frac_ = pis - Fraction(q, 2)
        sgn = 1
        if rest and rest[0][0] < 0 and frac_ == 0:
            sgn = -1
            rest = [(-c, fs) for c, fs in rest]
        y = z3.RealVal(0)
        ts = []
        for c, fs in rest:
            m = z3.RealVal(c)
            for f in fs:
                m = m * f
            ts.append(m)
        if frac_:
            ts.append(z3.RealVal(frac_) * self.PI)
        y = z3.simplify(z3.Sum(ts)) if ts else z3.RealVal(0)
        if not ts:
            s, c = z3.RealVal(0), z3.RealVal(1)
        else:
            s, c = self._sc(y)
        if sgn < 0:
            s = z3.simplify(-s)
        for _ in range(q):
            s, c = c, z3.simplify(-s)
        return s, c

    # ---- conversions -----------------------------------------------------
    def to_dtype(self, v, dt):
        from . import npshim
        return npshim.cast(v, npshim.dtype(dt))

    def seq_repeat(self, o, n):
        from . import seq
        return seq.repeat(o, n)
