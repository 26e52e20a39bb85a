"""The part of numpy karta's own code uses, over arrays whose element is a
function of its (symbolic) index and whose extents may be symbolic.

Assumed contract of numpy: elementwise arithmetic, broadcasting, basic slicing
(views), boolean assignment, pad, where, arange, meshgrid as documented."""
import itertools, math, types, builtins
from fractions import Fraction
import numpy as rnp
import z3
import numbers
from . import sym
from .sym import SNum, SBool, NaN, NAN, Unsupported, const, If, smin, smax, term, tbool

TRUST = "numpy: elementwise arithmetic, broadcasting, slicing, where, pad, arange, meshgrid behave as documented"


class dtype(object):
    def __new__(cls, d):
        if isinstance(d, dtype):
            return d
        self = object.__new__(cls)
        from . import bi
        if d is bi.Int:
            d = int
        elif d is bi.Float:
            d = float
        elif d is bi.Bool:
            d = bool
        if isinstance(d, type) and issubclass(d, sctype):
            d = d._np
        self.real = rnp.dtype(d)
        self.name = self.real.name
        self.kind = self.real.kind
        self.itemsize = self.real.itemsize
        self.type = TYPES.get(self.name)
        return self

    def __eq__(self, o):
        try:
            return self.real == dtype(o).real
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.real)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "dtype(%s)" % self.name


class sctype(object):
    _np = None

    def __new__(cls, v=0):
        return cast(v, dtype(cls))


class number_(object):
    pass


def _mk(name, *bases):
    return type(name, tuple(bases), {"_np": rnp.dtype(name), "dtype": name})


class SMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, SNum):
            return cls in (integer, int64) if o.isint else cls in (floating, float64)
        return type.__instancecheck__(cls, o)

    def __eq__(cls, o):
        if isinstance(o, dtype):
            return o == cls
        return cls is o

    def __hash__(cls):
        return id(cls)


class integer(sctype, metaclass=SMeta):
    pass


class floating(sctype, metaclass=SMeta):
    pass


TYPES = {}
for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"):
    TYPES[_n] = SMeta(_n, (integer,), {"_np": rnp.dtype(_n)})
for _n in ("float32", "float64"):
    TYPES[_n] = SMeta(_n, (floating,), {"_np": rnp.dtype(_n)})
numbers.Integral.register(integer)
numbers.Real.register(floating)
TYPES["bool"] = SMeta("bool_", (sctype,), {"_np": rnp.dtype(bool)})
int64, float64 = TYPES["int64"], TYPES["float64"]


def cast(v, dt):
    """value stored in an array of type dt (range overflow is not modelled)"""
    k = dt.kind
    if isinstance(v, FArr):
        return v.astype(dt)
    if k == "f":
        if isinstance(v, (SNum, SBool)):
            return SNum(term(v, True))
        if isinstance(v, (NaN, Fraction)):
            return v
        if isinstance(v, float) and v != v:
            return NAN
        return float(v)
    if k in "iu":
        if isinstance(v, (SNum, SBool)):
            return sym.E.trunc(v)
        if isinstance(v, NaN):
            raise Unsupported("NaN stored in an integer array")
        return int(v)
    if k == "b":
        if isinstance(v, SNum):
            return SBool(v.t != 0)
        if isinstance(v, SBool):
            return v
        return bool(v)
    raise Unsupported("dtype %s" % dt.name)


def cshape(s):
    return tuple(const(x) if const(x) is not None else x for x in s)


def same_dim(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return ca == cb
    x, y = term(a), term(b)
    if z3.is_true(z3.simplify(x == y)):
        return True
    return sym.E.branch(x == y)


def rtype(*vs):
    """result type of an arithmetic operation"""
    arrs = [v.dtype.real for v in vs if isinstance(v, FArr)]
    sc = [v for v in vs if not isinstance(v, FArr)]
    r = rnp.result_type(*arrs) if arrs else rnp.dtype("int64")
    for v in sc:
        isf = isinstance(v, (float, Fraction, NaN)) or isinstance(v, SNum) and not v.isint
        if isf and r.kind in "iub":
            r = rnp.dtype("float64")
        elif not isf and r.kind == "b" and not isinstance(v, (bool, SBool)):
            r = rnp.dtype("int64")
    return dtype(r)


class FArr(object):
    __array_priority__ = 1000

    def __init__(self, shape, fn, dt="float64", base=None, fwd=None, inv=None, flags=None):
        E = sym.E
        self.shape = cshape(shape)
        self.dtype = dtype(dt)
        self.base = base
        if base is None:
            self._f = fn
            E.births += 1
            self.uid = E.births
            E.heap[self.uid] = self
        else:
            self.fwd, self.inv = fwd, inv

    # ---- reading
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    def snapshot(self):
        """the element function as it is now"""
        if self.base is None:
            return self._f
        f, fwd = self.base.snapshot(), self.fwd
        return lambda *i: f(*fwd(*i))

    @property
    def _fn(self):
        return self.snapshot()

    def at(self, *i):
        return self.snapshot()(*i)

    def _len(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __len__(self):
        c = const(self._len())
        if c is None:
            raise Unsupported("len of an array of symbolic size")
        return c

    def _itercount(self):
        return self._len()

    def item(self, *k):
        if not k:
            return self._scalar()
        return self[k if len(k) > 1 else k[0]]

    def _scalar(self):
        if all(const(s) == 1 for s in self.shape):
            return self.at(*([0] * self.ndim))
        raise TypeError("only size-1 arrays can be converted to scalars")

    def __iter__(self):
        n = const(self._len())
        if n is None:
            raise Unsupported("iteration over an array of symbolic size")
        for i in range(n):
            yield self[i]

    def tolist(self):
        return [x.tolist() if isinstance(x, FArr) else x for x in self]

    def __bool__(self):
        return bool(self._scalar())

    def __float__(self):
        raise Unsupported("float of an array")

    # ---- indexing
    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i:i + 1] = [slice(None)] * (self.ndim - n)
        else:
            key += [slice(None)] * (self.ndim - n)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        return key

    def view(self, key):
        key = self._norm(key)
        dims, plan, ax = [], [], 0
        for k in key:
            if k is None:
                dims.append(1)
                plan.append(("new",))
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                st, ln, step = slice_(k, n)
                dims.append(ln)
                plan.append(("slice", st, step, ln))
            elif isinstance(k, FArr) and k.ndim == 0:
                plan.append(("int", index_(k._scalar(), n)))
            elif isinstance(k, (int, SNum)) and not isinstance(k, bool) or hasattr(k, "__index__") and not isinstance(k, FArr):
                plan.append(("int", index_(k, n)))
            else:
                raise Unsupported("index of type %s" % type(k).__name__)
            ax += 1

        def fwd(*i):
            it = iter(i)
            out = []
            for p in plan:
                if p[0] == "new":
                    next(it)
                elif p[0] == "slice":
                    out.append(p[1] + next(it) * p[2])
                else:
                    out.append(p[1])
            return tuple(out)

        def inv(*b):
            cond, vi, it = [], [], iter(b)
            for p in plan:
                if p[0] == "new":
                    vi.append(0)
                elif p[0] == "slice":
                    x = next(it)
                    st, step, ln = p[1], p[2], p[3]
                    d = x - st
                    if step == 1:
                        q = d
                    elif step == -1:
                        q = 0 - d
                    else:
                        q = sym.E.floordiv(d, step)
                        cond.append(q * step == d)
                    cond.append(0 <= q)
                    cond.append(q < ln)
                    vi.append(q)
                else:
                    cond.append(next(it) == p[1])
            return sym.And(*cond) if cond else True, tuple(vi)
        return FArr(dims, None, self.dtype, base=self, fwd=fwd, inv=inv)

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if maskonly(ks):
            return select(self, ks[0])
        if any(isinstance(k, (FArr, list)) and getattr(k, "ndim", 1) for k in ks):
            return self.gather(ks)
        v = self.view(key)
        if v.ndim == 0:
            return v.at()
        return v

    def gather(self, ks):
        ks = self._norm(tuple(asarray(k) if isinstance(k, list) else k for k in ks))
        if not all(isinstance(k, FArr) or isinstance(k, (int, SNum)) or k == slice(None) for k in ks):
            raise Unsupported("mixed fancy index")
        f = self.snapshot()
        adv = [k for k in ks if not isinstance(k, slice)]
        sh = bshape(*[k.shape for k in adv if isinstance(k, FArr)])
        fs = [bfn(k, len(sh)) if isinstance(k, FArr) else (lambda *i, k=k: k) for k in adv]
        first = [i for i, k in enumerate(ks) if not isinstance(k, slice)]
        if first != list(range(first[0], first[0] + len(first))):
            raise Unsupported("separated fancy indices")
        a = first[0]
        rest = [self.shape[i] for i, k in enumerate(ks) if isinstance(k, slice)]
        shape = tuple(rest[:a]) + sh + tuple(rest[a:])
        ns = [self.shape[i] for i in first]

        def g(*i):
            pre, mid, post = i[:a], i[a:a + len(sh)], i[a + len(sh):]
            return f(*(tuple(pre) + tuple(index_(x(*mid), n) for x, n in zip(fs, ns)) + tuple(post)))
        return FArr(shape, g, self.dtype)

    def __setitem__(self, key, val):
        ks = key if isinstance(key, tuple) else (key,)
        if maskonly(ks):
            m = ks[0]
            mf = m.snapshot()
            r = m.ndim
            if isinstance(val, FArr) and val.ndim:
                sl = Sel.of(m)
                if val.ndim != self.ndim - r + 1:
                    raise Unsupported("array assigned through a boolean mask")
                if not bool(sym.Or(val.shape[0] == sl.count, val.shape[0] == 1)):
                    raise ValueError("NumPy boolean array indexing assignment cannot assign input values")
                vf, dt = val.snapshot(), self.dtype
                one = const(val.shape[0]) == 1

                def new(*i):
                    c = mf(*i[:r])
                    try:
                        return c, cast(vf(0 if one else sl.rank(*i[:r]), *i[r:]), dt)
                    except (IndexError, DivZero):
                        # no value is read where the mask is false
                        if sym.E.branch(tbool(c)):
                            raise
                        return False, 0
                self.write(new, None)
                return
            v = cast(val, self.dtype)
            self.write(lambda *i: (mf(*i[:r]), v), None)
            return
        if any(isinstance(k, FArr) and k.ndim for k in ks):
            raise Unsupported("assignment through an index array")
        v = self.view(key)
        v.assign(val)

    def assign(self, val):
        val = asarray(val) if isinstance(val, (list, tuple)) else val
        dt = self.dtype
        if isinstance(val, FArr):
            g = broadcast_fn(val, self.shape)
            self.write(lambda *i: (True, cast(g(*i), dt)), None)
        else:
            c = cast(val, dt)
            self.write(lambda *i: (True, c), None)

    def write(self, new, _):
        """new(index) -> (condition, value)"""
        if self.base is not None:
            inv = self.inv

            def up(*b):
                c, vi = inv(*b)
                if c is not True and z3.is_false(z3.simplify(tbool(c))):
                    return False, 0
                c2, v = new(*vi)
                return sym.And(c, c2) if c is not True else c2, v
            self.base.write(up, None)
            return
        old = self._f
        dt = self.dtype

        def f(*i):
            c, v = new(*i)
            if c is True:
                return v
            t = z3.simplify(tbool(c))
            if z3.is_true(t):
                return v
            o = old(*i)
            if z3.is_false(t):
                return o
            return If(t, v, o)
        self._f = f
        sym.E.writes.append(self.uid)

    def havoc(self):
        if self.base is not None:
            raise Unsupported("havoc of a view")
        self._f = fresh_fn("arr", self.ndim, self.dtype)
        sym.E.writes.append(self.uid)       # written, as far as an enclosing loop is concerned

    # ---- elementwise
    def _ew(self, f, o, swap=False, dt=None, strict=False):
        if isinstance(o, (list, tuple)):
            o = asarray(o)
        if not isinstance(o, FArr) and not isinstance(o, (SNum, SBool, NaN, int, float, Fraction)) and not hasattr(o, "item"):
            return NotImplemented
        return ew(f, o, self, dt=dt, strict=strict) if swap else ew(f, self, o, dt=dt, strict=strict)

    def __add__(self, o): return self._ew(lambda a, b: a + b, o, strict=True)
    def __radd__(self, o): return self._ew(lambda a, b: a + b, o, True, strict=True)
    def __sub__(self, o): return self._ew(lambda a, b: a - b, o, strict=True)
    def __rsub__(self, o): return self._ew(lambda a, b: a - b, o, True, strict=True)
    def __mul__(self, o): return self._ew(lambda a, b: a * b, o, strict=True)
    def __rmul__(self, o): return self._ew(lambda a, b: a * b, o, True, strict=True)
    def __truediv__(self, o): return self._ew(npdiv, o, dt=fdt(self, o), strict=True)
    def __rtruediv__(self, o): return self._ew(npdiv, o, True, dt=fdt(self, o), strict=True)
    def __floordiv__(self, o): return self._ew(lambda a, b: a // b, o)
    def __mod__(self, o): return self._ew(lambda a, b: a % b, o)
    def __pow__(self, o): return self._ew(lambda a, b: a ** b, o)
    def __neg__(self): return ew(lambda a: -a, self)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)
    def dot(self, o): return dot(self, o)
    def __abs__(self): return ew(lambda a: abs(a), self)
    def __lt__(self, o): return self._ew(lambda a, b: a < b, o, dt="bool")
    def __le__(self, o): return self._ew(lambda a, b: a <= b, o, dt="bool")
    def __gt__(self, o): return self._ew(lambda a, b: a > b, o, dt="bool")
    def __ge__(self, o): return self._ew(lambda a, b: a >= b, o, dt="bool")
    def __eq__(self, o): return self._ew(lambda a, b: a == b, o, dt="bool")
    def __ne__(self, o): return self._ew(lambda a, b: a != b, o, dt="bool")
    __hash__ = object.__hash__

    def _inplace(self, f, o):
        r = self._ew(f, o)
        self.view(tuple([slice(None)] * self.ndim)).assign(r)
        return self

    def __iadd__(self, o): return self._inplace(lambda a, b: a + b, o)
    def __isub__(self, o): return self._inplace(lambda a, b: a - b, o)
    def __imul__(self, o): return self._inplace(lambda a, b: a * b, o)
    def __itruediv__(self, o): return self._inplace(npdiv, o)

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("~ on an integer array")
        return ew(lambda a: sym.Not(a) if isinstance(a, SBool) else not a, self)

    def __and__(self, o): return self._ew(band, o)
    def __or__(self, o): return self._ew(bor, o)

    def _elementwise(self, f):
        return ew(f, self, dt="bool")

    # ---- shape
    def astype(self, dt, copy=True):
        dt = dtype(dt)
        f = self.snapshot()
        return FArr(self.shape, lambda *i: cast(f(*i), dt), dt)

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self):
        return FArr(self.shape, self.snapshot(), self.dtype)

    @property
    def T(self):
        f = self.snapshot()
        return FArr(self.shape[::-1], lambda *i: f(*i[::-1]), self.dtype)

    def transpose(self, *axes):
        axes = tuple(axes[0]) if len(axes) == 1 and isinstance(axes[0], (tuple, list)) else axes
        if not axes:
            return self.T
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        f = self.snapshot()

        def g(*i):
            j = [None] * self.ndim
            for p, q in zip(axes, i):
                j[p] = q
            return f(*j)
        return FArr([self.shape[p] for p in axes], g, self.dtype)

    def flatten2(self, a, b):
        """Two neighbouring symbolic extents m, n flattened into one of m*n, or one of
        m*n divided; a, b are the extents before and after, without those of one."""
        f = self.snapshot()
        src = [i for i, x in enumerate(self.shape) if const(x) != 1]

        def put(i):
            idx = [0] * self.ndim
            for p, q in zip(src, i):
                idx[p] = q
            return idx
        eq = lambda x, y: const(x) is not None and const(x) == const(y) or const(x) is None and const(y) is None and z3.is_true(z3.simplify(term(x) == term(y)))
        if len(b) == len(a) - 1 and len(a) >= 2:
            for p in range(len(b)):
                m, n = a[p], a[p + 1]
                if (const(b[p]) == -1 or eq(b[p], m * n)) and all(eq(x, y) for x, y in zip(a[:p] + a[p + 2:], b[:p] + b[p + 1:])):
                    fl = Flat(m, n)
                    return FArr(b[:p] + [m * n] + b[p + 1:], lambda *i: f(*put(list(i[:p]) + fl.pair(i[p]) + list(i[p + 1:]))), self.dtype)
        if len(b) == len(a) + 1:
            for p in range(len(a)):
                m, n = b[p], b[p + 1]
                if const(m) != -1 and const(n) != -1 and eq(a[p], m * n) and all(eq(x, y) for x, y in zip(a[:p] + a[p + 1:], b[:p] + b[p + 2:])):
                    fl = Flat(m, n)
                    return FArr(b, lambda *i: f(*put(list(i[:p]) + [fl.index(i[p], i[p + 1])] + list(i[p + 2:]))), self.dtype)
        return None

    def reshape(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else tuple(s)
        sc, oc = [const(x) for x in s], [const(x) for x in self.shape]
        f = self.snapshot()
        # dropping or adding extents of one
        a = [x for x in self.shape if const(x) != 1]
        b = [x for x in s if const(x) != 1]
        if len(a) == len(b) and builtins.all(const(y) == -1 or same_dim(x, y) for x, y in zip(a, b)):
            src = [i for i, x in enumerate(self.shape) if const(x) != 1]
            dst = [i for i, x in enumerate(s) if const(x) != 1]
            nd = self.ndim
            shape = list(s)
            for i, x in zip(dst, a):
                shape[i] = x

            def g(*i):
                idx = [0] * nd
                for p, q in zip(src, dst):
                    idx[p] = i[q]
                return f(*idx)
            return FArr(shape, g, self.dtype)
        r = self.flatten2(a, b) if None in oc else None
        if r is not None:
            src = [i for i, x in enumerate(s) if const(x) != 1]
            h, nd = r.snapshot(), len(src)
            shape = list(s)
            for p, x in zip(src, r.shape):
                shape[p] = x
            return FArr(shape, lambda *i: h(*[i[p] for p in src]), self.dtype)
        if None not in oc:
            tot = 1
            for x in oc:
                tot *= x
            if -1 in sc:
                k = 1
                for x in sc:
                    if x != -1:
                        k *= x
                sc = [tot // k if x == -1 else x for x in sc]
            flat = [f(*i) for i in itertools.product(*[range(x) for x in oc])]

            def g(*i):
                n = 0
                for x, m in zip(i, sc):
                    n = n * m + x
                c = const(n)
                if c is None:
                    raise Unsupported("symbolic index after reshape")
                return flat[c]
            return FArr(sc, g, self.dtype)
        raise Unsupported("reshape of a symbolic array")

    def ravel(self):
        if self.ndim == 1:
            return self
        return self.reshape(-1)
    flatten = ravel

    # ---- reductions over concrete extents
    def _all(self):
        cs = [const(x) for x in self.shape]
        if None in cs:
            raise Unsupported("reduction over a symbolic extent")
        f = self.snapshot()
        return [f(*i) for i in itertools.product(*[range(c) for c in cs])]

    def reduce(self, f, axis=None):
        if axis is None:
            return f(self._all())
        if axis < 0:
            axis += self.ndim
        n = const(self.shape[axis])
        if n is None:
            raise Unsupported("reduction over a symbolic extent")
        g = self.snapshot()
        sh = self.shape[:axis] + self.shape[axis + 1:]
        return FArr(sh, lambda *i: f([g(*(i[:axis] + (k,) + i[axis:])) for k in range(n)]), self.dtype)

    def sum(self, axis=None):
        from .bi import sum_
        if axis is None and self.ndim == 1 and const(self.shape[0]) is None:
            return sum_(self)
        return self.reduce(sum_, axis)

    def min(self, axis=None):
        if axis is None and self.ndim == 1 and const(self.shape[0]) is None:
            from . import sseq
            return sseq.extreme(self, True)
        if axis is None and self.ndim == 2 and const(self.shape[0]) is None and const(self.shape[1]) is not None:
            # column by column
            return fold(smin, [self[:, k].min() for k in range(const(self.shape[1]))])
        return self.reduce(lambda l: fold(smin, l), axis)

    def max(self, axis=None):
        if axis is None and self.ndim == 1 and const(self.shape[0]) is None:
            from . import sseq
            return sseq.extreme(self, False)
        if axis is None and self.ndim == 2 and const(self.shape[0]) is None and const(self.shape[1]) is not None:
            # column by column
            return fold(smax, [self[:, k].max() for k in range(const(self.shape[1]))])
        return self.reduce(lambda l: fold(smax, l), axis)

    def all(self, axis=None):
        if axis is None and self.ndim == 2 and const(self.shape[0]) is None and const(self.shape[1]) is not None:
            from . import sseq
            return sseq.all_(sseq.SSeq(self.shape[0], lambda k: sym.And(*[self[k, d] for d in range(const(self.shape[1]))])))
        return self.reduce(lambda l: sym.And(*l) if l else True, axis)

    def any(self, axis=None):
        return self.reduce(lambda l: sym.Or(*l) if l else False, axis)

    def mean(self, axis=None):
        l = self._all()
        from .bi import sum_
        return sum_(l) / len(l)


class Flat(object):
    """The numbering of the cells of an array of m rows and n columns, row by row: cell
    (i, j) has the number i * n + j, and every number below m * n belongs to one cell."""
    def __init__(self, m, n):
        self.m, self.n = m, n
        I = z3.IntSort()
        key = "%s by %s" % (z3.simplify(term(m)).sexpr(), z3.simplify(term(n)).sexpr())
        self.row, self.col = [z3.Function("%s in %s" % (w, key), I, I) for w in ("row", "column")]
        self.num = z3.Function("number in %s" % key, I, I, I)

    def inside(self, i, j):
        return sym.And(0 <= i, i < self.m, 0 <= j, j < self.n)

    def index(self, i, j):
        """the number of cell (i, j), as a function of the cell: its value i * n + j is used nowhere else"""
        t = self.num(term(i), term(j))
        k = SNum(t)
        sym.E.add(tbool(sym.Implies(self.inside(i, j), sym.And(0 <= k, k < self.m * self.n, SNum(self.row(t)) == i, SNum(self.col(t)) == j))))
        return k

    def pair(self, k):
        t = term(k)
        i, j = SNum(self.row(t)), SNum(self.col(t))
        sym.E.add(tbool(sym.Implies(sym.And(0 <= k, k < self.m * self.n), sym.And(self.inside(i, j), SNum(self.num(i.t, j.t)) == k))))
        return [i, j]


class Branches(Exception):
    pass


def quiet(f, *a):
    """f(*a), if that needs no case distinction"""
    E = sym.E
    old = E.branch

    def no(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        raise Branches()
    E.branch = no
    try:
        return f(*a)
    finally:
        E.branch = old


def valid(t):
    """whatever else holds"""
    t = z3.simplify(t)
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(z3.Not(t))
    return s.check() == z3.unsat


class Sel(object):
    """the true cells of a boolean array, in order: count of them, the cell of the
    k-th (pos) and the number of a cell (rank); pos and rank are uninterpreted and
    inverse to one another"""
    @staticmethod
    def of(m):
        E = sym.E
        d = E.__dict__.setdefault("sels", [])
        if E.__dict__.get("sels_run") is not E.heap:
            del d[:]
            E.sels_run = E.heap
        # masks with equal elements are the same mask, however they were computed
        try:
            t = tbool(quiet(m.snapshot(), *[SNum(z3.Int("sel?%d" % k)) for k in range(m.ndim)]))
        except (Branches, Unsupported, TypeError, ValueError, IndexError):
            t = None
        f = m.snapshot()
        for s, u, g in d:
            if s.n == m.ndim and (f is g or t is not None and u is not None and s.sized(m.shape) and valid(t == u)):
                return s
        d.append((Sel(m), t, f))     # kept alive
        return d[-1][0]

    def sized(self, shape):
        return builtins.all(z3.is_true(z3.simplify(term(x) == term(y))) for x, y in zip(shape, self.shape))

    def __init__(self, m):
        E = sym.E
        self.n, self.shape, self.f = m.ndim, m.shape, m.snapshot()
        E.births += 1
        u = E.births
        self.cells, self.of_rank = None, {}
        if not E.abstract_loops and all_const(*m.shape):
            # a bounded run: cell by cell
            import itertools
            def on(i):
                v = self.f(*i)
                return E.branch(v.t) if isinstance(v, SBool) else bool(v)
            self.cells = [i for i in itertools.product(*[range(const(x)) for x in m.shape]) if on(i)]
            self.count = len(self.cells)
            return
        self.count = E.fresh("selected", "int")
        E.assume(self.count >= 0)
        I = z3.IntSort()
        self._rank = z3.Function("rank!%d" % u, *([I] * self.n + [I]))
        self._pos = [z3.Function("pos!%d.%d" % (u, d), I, I) for d in range(self.n)]
        if len(getattr(E, "skolem", ()) or ()) == self.n:
            self.rank(*E.skolem)

    def rank(self, *i):
        E = sym.E
        if self.cells is not None:
            return fold(lambda r, q: If(sym.And(*[x == y for x, y in zip(i, q[1])]), q[0], r), [-1] + list(enumerate(self.cells)))
        r = SNum(self._rank(*[term(x) for x in i]))
        # the rank of a cell not selected is some number not in use, one for each cell
        self.of_rank[r.t.get_id()] = (list(i), r)
        inside = sym.And(*[sym.And(0 <= x, x < n) for x, n in zip(i, self.shape)])
        E.add(tbool(sym.Implies(sym.Not(sym.And(inside, self.f(*i))), r < 0)))
        E.add(tbool(sym.Implies(sym.And(inside, self.f(*i)), sym.And(0 <= r, r < self.count, *[SNum(p(r.t)) == x for p, x in zip(self._pos, i)]))))
        return r

    def pos(self, k):
        E = sym.E
        if self.cells is not None:
            if const(k) is not None:
                return list(self.cells[const(k)]) if 0 <= const(k) < self.count else [0] * self.n
            return [fold(lambda r, q: If(k == q[0], q[1][d], r), [0] + list(enumerate(self.cells))) for d in range(self.n)]
        if term(k).get_id() in self.of_rank:
            return list(self.of_rank[term(k).get_id()][0])
        p = [SNum(f(term(k))) for f in self._pos]
        E.add(tbool(sym.Implies(sym.And(0 <= k, k < self.count), sym.And(self.f(*p), *[sym.And(0 <= x, x < n) for x, n in zip(p, self.shape)],
                                                                         SNum(self._rank(*[x.t for x in p])) == k))))
        return p


def maskonly(ks):
    """indexed by a mask, and full slices"""
    return bool(ks) and isinstance(ks[0], FArr) and ks[0].dtype.kind == "b" and all(isinstance(k, slice) and k == slice(None) for k in ks[1:])


def select(a, m):
    if m.ndim > a.ndim:
        raise IndexError("too many indices for array")
    for x, y in zip(a.shape, m.shape):
        if not bool(x == y):
            raise IndexError("boolean index did not match indexed array")
    s = Sel.of(m)
    f = a.snapshot()
    return FArr((s.count,) + tuple(a.shape[m.ndim:]), lambda k, *r: f(*(list(s.pos(k)) + list(r))), a.dtype)


def fold(f, l):
    r = l[0]
    for x in l[1:]:
        r = f(r, x)
    return r


def band(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return sym.And(a, b)
    raise Unsupported("& on numbers")


def bor(a, b):
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return sym.Or(a, b)
    raise Unsupported("| on numbers")


def fdt(a, b):
    t = rtype(a, b)
    return t if t.kind == "f" else "float64"


class DivZero(Unsupported):
    pass


def npdiv(a, b):
    """numpy division: no exception on zero (the result is then not modelled)"""
    try:
        return a / b
    except ZeroDivisionError:
        raise DivZero("array division by zero")


def fresh_fn(name, nd, dt):
    n = "%s!%d" % (name, next(sym.E.names))
    rs = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(dtype(dt).kind, z3.IntSort())
    f = z3.Function(n, *([z3.IntSort()] * nd + [rs])) if nd else None

    def g(*i):
        if nd == 0:
            return sym.mk(z3.Const(n, rs))
        t = f(*[term(x) for x in i])
        return SBool(t) if rs == z3.BoolSort() else SNum(t)
    return g


def symbolic(name, shape, dt="float64", lo=None, hi=None):
    """an arbitrary input array; concrete extents give named elements"""
    dt = dtype(dt)
    E = sym.E
    cs = [const(x) for x in shape]
    if None not in cs:
        tab = {}
        for i in itertools.product(*[range(c) for c in cs]):
            nm = name + "_" + "_".join(map(str, i))
            tab[i] = E.real(nm) if dt.kind == "f" else (E.bool(nm) if dt.kind == "b" else E.int(nm, lo, hi))

        def f(*i):
            k = tuple(const(x) for x in i)
            if None not in k:
                if k not in tab:
                    return SNum(z3.RealVal(0)) if dt.kind == "f" else 0
                return tab[k]
            r = None
            for kk, v in tab.items():
                r = v if r is None else If(sym.And(*[a == b for a, b in zip(i, kk)]), v, r)
            return r
        return FArr(shape, f, dt)
    rs = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(dt.kind, z3.IntSort())
    fz = z3.Function("in_" + name, *([z3.IntSort()] * len(shape) + [rs]))

    def g(*i):
        t = fz(*[term(x) for x in i])
        if lo is not None:
            E.add(t >= lo)
        if hi is not None:
            E.add(t <= hi)
        return SBool(t) if dt.kind == "b" else SNum(t)
    return FArr(shape, g, dt)


def index_(k, n):
    """a normalised integer index; out of range raises as numpy does"""
    if isinstance(k, FArr):
        k = k._scalar()
    c, m = const(k), const(n)
    if c is not None and m is not None:
        if not -m <= c < m:
            raise IndexError("index %s is out of bounds" % c)
        return c + m if c < 0 else c
    if c is not None:
        if c >= 0:
            if not sym.E.branch(term(n) > c):
                raise IndexError("index out of bounds")
            return c
        if not sym.E.branch(term(n) >= -c):
            raise IndexError("index out of bounds")
        return n + c
    if isinstance(k, SNum) and not k.isint:
        raise IndexError("only integers are valid indices")
    if sym.E.branch(term(k) < 0):
        if not sym.E.branch(term(k) + term(n) >= 0):
            raise IndexError("index out of bounds")
        return k + n
    if not sym.E.branch(term(k) < term(n)):
        raise IndexError("index out of bounds")
    return k


def clampi(v, lo, hi):
    return smin(smax(v, lo), hi)


def slice_indices(s, n):
    """slice.indices for a slice of symbolic integers"""
    if not isinstance(s, slice):
        return s.indices(n)
    if all_const(s.start, s.stop, s.step, n):
        return slice(cval(s.start), cval(s.stop), cval(s.step)).indices(const(n))
    step = 1 if s.step is None else const(s.step)
    if step is None or step == 0:
        raise Unsupported("symbolic slice step")
    return slice_ends(s, n, step) + (step,)


def slice_ends(s, n, step):
    def norm(v):
        c = const(v)
        if c is not None:
            return v if c >= 0 else n + c
        return If(v < 0, v + n, v)
    if step > 0:
        a = 0 if s.start is None else clampi(norm(s.start), 0, n)
        b = n if s.stop is None else clampi(norm(s.stop), 0, n)
    else:
        a = n - 1 if s.start is None else clampi(norm(s.start), -1, n - 1)
        b = -1 if s.stop is None else clampi(norm(s.stop), -1, n - 1)
    return simp(a), simp(b)


def slice_(s, n):
    """(start, length, step) of a slice over n items"""
    step = 1 if s.step is None else const(s.step)
    if step is None or step == 0:
        raise Unsupported("symbolic slice step")
    if all_const(s.start, s.stop, n):
        a, b, c = slice(cval(s.start), cval(s.stop), step).indices(const(n))
        ln = len(range(a, b, c))
        return a, ln, step

    a, b = slice_ends(s, n, step)
    d = b - a if step > 0 else a - b
    if abs(step) == 1:
        ln = smax(d, 0)
    else:
        ln = smax(sym.E.floordiv(d + (abs(step) - 1), abs(step)), 0)
    return simp(a), simp(ln), step


def simp(v):
    """use the path condition to drop clamping"""
    if not isinstance(v, SNum):
        return v
    t = z3.simplify(v.t)
    for _ in range(6):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            if sym.E.check(z3.Not(c), timeout=300) == z3.unsat:
                t = t.arg(1)
                continue
            if sym.E.check(c, timeout=300) == z3.unsat:
                t = t.arg(2)
                continue
        break
    return SNum(z3.simplify(t))


def cval(v):
    return None if v is None else const(v)


def all_const(*a):
    return builtins.all(v is None or const(v) is not None for v in a)


def bshape(*shapes):
    nd = builtins.max([len(s) for s in shapes] or [0])
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if const(x) == 1:
                continue
            if const(cur) == 1:
                cur = x
            elif not same_dim(cur, x):
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bfn(a, nd):
    """element function of a for an index of nd dimensions"""
    f = a.snapshot()
    m = a.ndim
    ones = [const(x) == 1 for x in a.shape]
    return lambda *i: f(*[0 if o else x for o, x in zip(ones, i[nd - m:])])


def broadcast_fn(a, shape):
    sh = bshape(a.shape, tuple(shape)) if a.ndim <= len(shape) else None
    if sh is None:
        extra = a.ndim - len(shape)
        if builtins.all(const(x) == 1 for x in a.shape[:extra]):
            f = a.snapshot()
            return broadcast_fn(FArr(a.shape[extra:], lambda *i: f(*([0] * extra + list(i))), a.dtype), shape)
        raise ValueError("could not broadcast input array")
    return bfn(a, len(shape))


def ew(f, *args, dt=None, strict=False):
    """f of the elements; strict: NaN whenever one of them is"""
    if sym.E is not None:
        sym.E.trusted.add(TRUST)
    arrs = [a for a in args if isinstance(a, FArr)]
    if not arrs:
        return f(*args)
    sh = bshape(*[a.shape for a in arrs])
    nd = len(sh)
    fs = [bfn(a, nd) if isinstance(a, FArr) else (lambda *i, a=a: a) for a in args]
    dt = dtype(dt) if dt is not None else rtype(*args)
    if strict:
        def h(*i):
            vs = []
            for g in fs:
                v = g(*i)
                if isinstance(v, NaN):
                    return NAN
                vs.append(v)
            return f(*vs)
    else:
        h = lambda *i: f(*[g(*i) for g in fs])
    if nd == 0:
        # numpy returns a scalar
        return h()
    return FArr(sh, h, dt)


class Listed(object):
    """a list of any length with the elements of an array"""
    def __init__(self, arr):
        self.arr = arr

    def _itercount(self):
        return self.arr.shape[0]

    def _len(self):
        return self.arr.shape[0]

    def __len__(self):
        return len(self.arr)

    def item(self, k):
        return self.arr.at(k)

    def __iter__(self):
        return iter(self.arr)

    def __getitem__(self, k):
        return self.arr[k]


# ---- module level functions
def asarray(v, dt=None, dtype=None):
    dt = dt if dt is not None else dtype
    if isinstance(v, FArr):
        return v.astype(dt) if dt is not None and not v.dtype == dt else v
    if isinstance(v, (list, tuple)) or type(v).__name__ == "generator" or isinstance(v, range):
        v = list(v)
        if v and (isinstance(v[0], (list, tuple)) or isinstance(v[0], FArr) and v[0].ndim):
            parts = [asarray(x) for x in v]
            sh = parts[0].shape
            fs = [p.snapshot() for p in parts]
            r = rnp.result_type(*[p.dtype.real for p in parts])

            def f(i, *rest):
                c = const(i)
                if c is not None:
                    return fs[c](*rest)
                out = fs[-1](*rest)
                for k in range(len(fs) - 2, -1, -1):
                    out = If(i == k, fs[k](*rest), out)
                return out
            a = FArr((len(parts),) + sh, f, r)
            return a.astype(dt) if dt is not None else a
        isf = builtins.any(isinstance(x, (float, Fraction, NaN)) or isinstance(x, SNum) and not x.isint for x in v)
        isb = v and builtins.all(isinstance(x, (bool, SBool)) for x in v)
        d = "float64" if isf or not v else ("bool" if isb else "int64")

        def f(i):
            c = const(i)
            if c is not None:
                return v[c]
            out = v[-1]
            for k in range(len(v) - 2, -1, -1):
                out = If(i == k, v[k], out)
            return out
        a = FArr((len(v),), lambda i: cast(f(i), dtype_(d)), d)
        return a.astype(dt) if dt is not None else a
    if isinstance(v, (int, float, SNum, SBool, Fraction, NaN)):
        isf = isinstance(v, (float, Fraction, NaN)) or isinstance(v, SNum) and not v.isint
        a = FArr((), lambda: v, dt or ("float64" if isf else "int64"))
        return a
    if isinstance(v, Listed):
        a = v.arr.copy()
        return a.astype(dt) if dt is not None else a
    if hasattr(v, "__array__") or isinstance(v, rnp.ndarray):
        return asarray(v.tolist(), dt)
    raise Unsupported("array of %s" % type(v).__name__)


dtype_ = dtype


def array(v, dtype=None, copy=True):
    a = asarray(v, dtype)
    return a.copy() if isinstance(v, FArr) else a


def tshape(s):
    if isinstance(s, FArr):
        return tuple(s)
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def full(shape, v, dtype=None):
    dt = dtype_(dtype if dtype is not None else "float64")
    c = cast(v, dt)
    return FArr(tshape(shape), lambda *i: c, dt)


def zeros(shape, dtype="float64"):
    return full(shape, 0, dtype)


def ones(shape, dtype="float64"):
    return full(shape, 1, dtype)


def empty(shape, dtype="float64"):
    s = tshape(shape)
    dt = dtype_(dtype)
    return FArr(s, fresh_fn("empty", len(s), dt), dt)


def like(f):
    return lambda a, dtype=None: f(a.shape, dtype=dtype if dtype is not None else a.dtype)


def arange(*a, dtype=None):
    if len(a) == 1:
        a = (0, a[0])
    if len(a) == 2:
        a = a + (1,)
    start, stop, step = a
    from .bi import SymRange, isint
    if not (isint(start) and isint(stop) and isint(step)):
        raise Unsupported("arange over reals")
    if all_const(*a):
        n = len(range(*[const(x) for x in a]))
    else:
        n = SymRange(start, stop, step).count()
    return FArr((simp(n),), lambda i: start + i * step, dtype or "int64")


def linspace(a, b, n, endpoint=True):
    d = (n - 1) if endpoint else n
    return FArr((n,), lambda i: a + sym.E.divide(sym.E.tofloat(i) * (b - a), d), "float64")


def meshgrid(x, y):
    fx, fy = asarray(x).snapshot(), asarray(y).snapshot()
    x, y = asarray(x), asarray(y)
    sh = (y.shape[0], x.shape[0])
    return [FArr(sh, lambda i, j: fx(j), x.dtype), FArr(sh, lambda i, j: fy(i), y.dtype)]


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    c = asarray(c) if isinstance(c, (list, tuple)) else c
    dt = rtype(*[x for x in (a, b)])
    return ew(lambda m, x, y: If(m, x, y) if isinstance(m, (SBool,)) else (x if m else y), c, a, b, dt=dt)


def pad(a, width, mode="constant", constant_values=0, reflect_type="even"):
    if isinstance(width, int):
        width = [(width, width)] * a.ndim
    width = [tuple(w) if isinstance(w, (tuple, list)) else (w, w) for w in width]
    f = a.snapshot()
    sh = tuple(n + w[0] + w[1] for n, w in zip(a.shape, width))
    old = a.shape
    if mode == "constant":
        cv = constant_values
        while isinstance(cv, (tuple, list)):
            cv = cv[0]
        cv = cast(cv, a.dtype)

        def g(*i):
            k = [x - w[0] for x, w in zip(i, width)]
            inside = sym.And(*[sym.And(0 <= x, x < n) for x, n in zip(k, old)])
            t = z3.simplify(tbool(inside))
            if z3.is_true(t) or not z3.is_false(t) and sym.E.branch(t):
                return f(*k)
            return cv
        return FArr(sh, g, a.dtype)
    if mode in ("edge", "reflect"):
        odd = reflect_type == "odd"

        def axis(ff, ax, n, w):
            def g(*i):
                k = i[ax] - w[0]

                def at(j):
                    ii = list(i)
                    ii[ax] = j
                    return ff(*ii)
                low = k < 0
                if isinstance(low, SBool):
                    low = sym.E.branch(low.t)
                if low:
                    if mode == "edge":
                        return at(0)
                    return 2 * at(0) - at(-k) if odd else at(-k)
                high = k >= n
                if isinstance(high, SBool):
                    high = sym.E.branch(high.t)
                if high:
                    if mode == "edge":
                        return at(n - 1)
                    m = 2 * (n - 1) - k
                    return 2 * at(n - 1) - at(m) if odd else at(m)
                return at(k)
            return g
        # numpy pads axis by axis; widths of one need at least two items
        for ax in range(a.ndim):
            f = axis(f, ax, old[ax], width[ax])
        return FArr(sh, f, a.dtype)
    raise Unsupported("pad mode %s" % mode)


def uf(name):
    from . import mathshim
    f = mathshim.lift(name)
    return lambda a: ew(f, asarray(a) if isinstance(a, (list, tuple)) else a, dt="float64" if isinstance(a, FArr) else None)


def np_sqrt(a):
    from . import mathshim
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if isinstance(a, FArr):
        def g(v):
            r = sym.E.sqrt(v, True)
            return r
        return ew(g, a, dt="float64")
    return sym.E.sqrt(a, True)


def arctan2(a, b):
    from . import mathshim
    f = mathshim.lift("atan2")
    return ew(f, a, b, dt="float64", strict=True) if isinstance(a, FArr) or isinstance(b, FArr) else f(a, b)


def lift1(f, dt=None):
    def g(a, *r, **k):
        if isinstance(a, (list, tuple)):
            a = asarray(a)
        if isinstance(a, FArr):
            return ew(lambda v: f(v, *r), a, dt=dt)
        return f(a, *r)
    return g


def np_floor(v):
    return SNum(z3.ToReal(v.__floor__().t)) if isinstance(v, SNum) else (NAN if isinstance(v, NaN) else float(math.floor(v)))


def np_ceil(v):
    return SNum(z3.ToReal(v.__ceil__().t)) if isinstance(v, SNum) else (NAN if isinstance(v, NaN) else float(math.ceil(v)))


def np_round(v, n=None):
    if isinstance(v, NaN):
        return v
    if isinstance(v, SNum):
        return SNum(term(sym.E.round(v), True))
    return float(round(v))


def dstack(l):
    l = [asarray(x) for x in l]
    l = [x[:, :, None] if x.ndim == 2 else x for x in l]
    if not builtins.all(const(x.shape[2]) == 1 for x in l):
        raise Unsupported("dstack")
    fs = [x.snapshot() for x in l]

    def f(i, j, k):
        c = const(k)
        if c is not None:
            return fs[c](i, j, 0)
        r = fs[-1](i, j, 0)
        for q in range(len(fs) - 2, -1, -1):
            r = If(k == q, fs[q](i, j, 0), r)
        return r
    return FArr(l[0].shape[:2] + (len(l),), f, l[0].dtype)


def hstack(l):
    """arrays side by side: along the second axis, or end to end"""
    l = [asarray(x) for x in l]
    if builtins.all(x.ndim == 1 for x in l):
        ax = 0
    elif builtins.all(x.ndim == 2 for x in l):
        ax = 1
    else:
        raise Unsupported("hstack")
    return concat(l, ax)


def vstack(l):
    return concat([x[None, :] if x.ndim == 1 else x for x in [asarray(x) for x in l]], 0)


def concat(l, axis=0):
    l = [asarray(x) for x in l]
    fs, ns, starts, n = [x.snapshot() for x in l], [x.shape[axis] for x in l], [], 0
    for x in l[1:]:
        for d in range(l[0].ndim):
            if d != axis and not same_dim(x.shape[d], l[0].shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    for m in ns:
        starts.append(n)
        n = n + m
    sh = l[0].shape[:axis] + (n,) + l[0].shape[axis + 1:]

    def f(*i):
        k = i[axis]
        at = lambda q: fs[q](*(i[:axis] + (simp(k - starts[q]),) + i[axis + 1:]))
        r = None
        for q in range(len(fs) - 1, -1, -1):
            inside = k >= starts[q]
            if not isinstance(inside, SBool):
                if inside:
                    r = at(q) if r is None or q == len(fs) - 1 or k < starts[q + 1] else r
                    if r is not None and k >= starts[q]:
                        return r
                continue
            r = at(q) if r is None else If(k < starts[q + 1], at(q), r)
        return r
    return FArr(sh, f, rtype(*l))


def dot(a, b):
    """matrix and vector products with a fixed inner dimension"""
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    m = const(a.shape[-1])
    bax = 0 if b.ndim < 2 else b.ndim - 2
    if m is None or b.ndim > 2:
        raise Unsupported("matrix product")
    if not same_dim(m, b.shape[bax]):
        raise ValueError("shapes not aligned")
    fa, fb, na = a.snapshot(), b.snapshot(), a.ndim - 1
    dt = rtype(a, b)

    def f(*i):
        p, q = i[:na], i[na:]
        r = None
        for k in range(m):
            t = fa(*(p + (k,))) * fb(*((k,) + q))
            r = t if r is None else r + t
        return r
    sh = tuple(a.shape[:-1]) + (tuple(b.shape[1:]) if b.ndim == 2 else ())
    return FArr(sh, f, dt) if sh else f()


def atleast(n):
    def f(a):
        a = asarray(a)
        if a.ndim >= n:
            return a
        g = a.snapshot()
        if n == 3 and a.ndim == 2:
            return FArr(a.shape + (1,), lambda i, j, k: g(i, j), a.dtype)
        nd = a.ndim
        if n == 3 and nd == 1:
            return FArr((1, a.shape[0], 1), lambda i, j, k: g(j), a.dtype)
        return FArr((1,) * (n - nd) + a.shape, lambda *i: g(*i[n - nd:]), a.dtype)
    return f


def broadcast_to(a, shape):
    a = asarray(a)
    return FArr(tuple(shape), broadcast_fn(a, tuple(shape)), a.dtype)


def red(name):
    def f(a, axis=None, **k):
        return getattr(asarray(a), name)(axis=axis)
    return f


def minmax2(f):
    return lambda a, b: ew(f, a, b)


def issubdtype(a, b):
    k = dtype(a).kind
    if b is integer:
        return k in "iu"
    if b is floating:
        return k == "f"
    return rnp.issubdtype(dtype(a).real, b if not isinstance(b, type) or not issubclass(b, sctype) else dtype(b).real)


class _NP(types.ModuleType):
    def __getattr__(self, a):
        if a == "pi":
            return sym.E.pi()
        if a.startswith("__"):
            raise AttributeError(a)

        def missing(*x, **k):
            raise Unsupported("numpy.%s" % a)
        return missing


def module():
    m = _NP("numpy")
    m.ndarray = FArr
    m.dtype = dtype
    m.integer, m.floating = integer, floating
    for n, t in TYPES.items():
        setattr(m, n, t)
    m.bool_ = TYPES["bool"]
    m.nan = m.NaN = m.NAN = NAN
    m.inf = float("inf")
    m.newaxis = None
    whole = lambda a: a.asarray() if hasattr(a, "asarray") else asarray(a)
    m.equal, m.not_equal = (lambda a, b: whole(a) == whole(b)), (lambda a, b: whole(a) != whole(b))
    m.asarray, m.array = asarray, array
    m.full, m.zeros, m.ones, m.empty = full, zeros, ones, empty
    m.zeros_like, m.ones_like, m.empty_like = like(zeros), like(ones), like(empty)
    m.full_like = lambda a, v, dtype=None: full(a.shape, v, dtype if dtype is not None else a.dtype)
    m.reshape = lambda a, s: asarray(a).reshape(s)
    m.arange, m.linspace, m.meshgrid, m.where, m.pad = arange, linspace, meshgrid, where, pad
    for n, p in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("arcsin", "asin"), ("arccos", "acos"), ("arctan", "atan"),
                 ("log", "log"), ("exp", "exp")):
        setattr(m, n, uf(p))
    m.sqrt, m.arctan2 = np_sqrt, arctan2
    m.abs = m.absolute = lift1(abs)
    m.isnan = lift1(sym.isnan, "bool")
    m.floor, m.ceil, m.round, m.rint = lift1(np_floor), lift1(np_ceil), lift1(np_round), lift1(np_round)
    m.around = m.round
    m.dstack, m.hstack, m.vstack, m.concatenate, m.dot, m.matmul = dstack, hstack, vstack, concat, dot, dot
    m.transpose = lambda a: asarray(a).T
    m.eye = m.identity = lambda n: FArr((n, n), lambda i, j: If(i == j, 1.0, 0.0) if not isinstance(i == j, bool) else (1.0 if i == j else 0.0), "float64")
    m.atleast_1d, m.atleast_2d, m.atleast_3d = atleast(1), atleast(2), atleast(3)
    m.broadcast_to = broadcast_to
    for n in ("sum", "min", "max", "all", "any", "mean"):
        setattr(m, n, red(n))
    m.minimum, m.maximum = minmax2(smin), minmax2(smax)
    m.issubdtype = issubdtype
    m.copy = lambda a: a.copy()
    m.isscalar = lambda v: isinstance(v, (int, float, SNum, SBool))
    m.logical_and, m.logical_or = (lambda a, b: ew(band, a, b)), (lambda a, b: ew(bor, a, b))
    m.iinfo = rnp.iinfo
    m.result_type = lambda *a: dtype(rnp.result_type(*[dtype(x).real for x in a]))
    return m
