"""P13: a table behaves as a list of records."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, SNum
from vf.sseq import SSeq, Growing
from contracts.recs import F, rows, count

ASSUME = ["in the contracts of tables the values are numbers or None, which the code does not look into"]

def table(env, tag="t", width=None, fields=None):
    E = env.E
    w = (1 + E.choose(3) if width is None else width) if fields is None else len(fields)
    n, val, data = rows(env, tag, w)
    T = env.mod("karta.vector.table").Table(data=data, fields=fields or F[:w])
    return T, n, val, w


def pos(env, name, n):
    """any row"""
    E = env.E
    k = E.int(name, 0)
    E.assume(k < n)
    return k


def at(T, k):
    d = T._data
    return d.f(k) if isinstance(d, SSeq) else pick(d, k)


def pick(d, k):
    from vf.sseq import toseq
    return toseq(d).f(k)


def same(row, vals):
    if len(row) != len(vals):
        return False
    r = True
    for a, b in zip(row, vals):
        if a is None or b is None:
            r = And(r, a is b)
        else:
            r = And(r, a == b)
    return r


def is_list(env, what, T, fields, n, rec):
    """the table is the list of the n records rec(k) with the fields"""
    E = env.E
    E.prove(what + ": fields", tuple(T._fields) == tuple(fields) and T.fields == set(fields))
    E.prove(what + ": as many rows", And(len_(T) == n))
    k = E.int("row", 0)
    if not E.branch((k < n).t if hasattr(k < n, "t") else z3.BoolVal(bool(k < n))):
        return
    E.prove(what + ": every row", same(at(T, k), rec(k)))


def len_(T):
    return count(T._data)


@contract("karta.vector.table.Table: made from rows, from columns, from values, from another table, or with no rows", sizes=(0, 2))
def made(env):
    E = env.E
    Table = env.mod("karta.vector.table").Table
    k = E.choose(5)
    if k == 0:
        T, n, val, w = table(env)
        is_list(env, "from rows", T, F[:w], n, lambda i: [val(i, j) for j in range(w)])
    elif k == 1:
        w = 1 + E.choose(3)
        n, val, data = rows(env, "col", w)
        if env.size is None:
            E.assume(n >= 1)
            cols = dict((F[j], SSeq(n, lambda i, j=j: val(i, j), True)) for j in range(w))
        else:
            if env.size == 0:
                return
            cols = dict((F[j], [val(i, j) for i in range(env.size)]) for j in range(w))
        is_list(env, "from columns", Table(cols), F[:w], n, lambda i: [val(i, j) for j in range(w)])
    elif k == 2:
        a, b = E.real("a"), E.real("b")
        is_list(env, "one record", Table({"a": a, "b": b}), F[:2], 1, lambda i: [a, b])
    elif k == 3:
        n, val, data = rows(env, "v", 1)
        if env.size is None:
            E.assume(n >= 1)
            data = SSeq(n, lambda i: val(i, 0), True)
        else:
            if env.size == 0:
                return
            data = [val(i, 0) for i in range(env.size)]
        is_list(env, "from values", Table(data), ("value",), n, lambda i: [val(i, 0)])
    else:
        T, n, val, w = table(env)
        C = Table(T)
        is_list(env, "a copy", C, F[:w], n, lambda i: [val(i, j) for j in range(w)])
        row = tuple(E.real("x%d" % j) for j in range(w))
        if E.choose(2):
            C._data.append(row)
        else:
            C.setfield("z", SSeq(n, lambda i: val(i, 0), True) if env.size is None else [1] * env.size)
        is_list(env, "the table copied", T, F[:w], n, lambda i: [val(i, j) for j in range(w)])


@contract("karta.vector.table.Table: rows of another length than the fields are refused", sizes=(1, 2))
def refused(env):
    E = env.E
    Table = env.mod("karta.vector.table").Table
    w = 1 + E.choose(3)
    n, val, data = rows(env, "t", w)
    E.assume(n >= 1)
    fields = (F + ("d",))[:w + 1] if E.choose(2) else F[:w - 1]
    try:
        Table(data=data, fields=fields)
    except ValueError:
        E.prove("refused", True)
        return
    E.prove("refused", False)


@contract("karta.vector.table.Table: rows are read, set and deleted at their places", sizes=(1, 2))
def row_access(env):
    E = env.E
    T, n, val, w = table(env)
    i = E.int("i")
    inside = And(i >= -n, i < n)
    place = lambda: i if E.branch((i >= 0).t) else i + n
    new = tuple(E.real("x%d" % j) for j in range(w))
    rec = lambda k: [val(k, j) for j in range(w)]
    k = E.choose(4)
    try:
        if k == 0:
            r = T[i]
        elif k == 1:
            T[i] = new
        elif k == 2:
            del T[i]
        else:
            r = T.get(i)
    except IndexError:
        E.prove("refused only outside", Not(inside))
        return
    E.prove("refused outside", inside)
    p = place()
    if k == 0:
        E.prove("the row", same(r, rec(p)))
    elif k == 3:
        E.prove("the record", r.keys() == set(F[:w]) and And(*[r[F[j]] == val(p, j) for j in range(w)]))
    if k in (0, 3):
        is_list(env, "reading", T, F[:w], n, rec)
    elif k == 1:
        is_list(env, "setting", T, F[:w], n, lambda q: list(new) if E.branch((q == p).t if hasattr(q == p, "t") else z3.BoolVal(q == p)) else rec(q))
    else:
        is_list(env, "deleting", T, F[:w], n - 1, lambda q: rec(q) if E.branch((q < p).t if hasattr(q < p, "t") else z3.BoolVal(q < p)) else rec(q + 1))


@contract("karta.vector.table.Table: fields are read and set, whole; columns of another length and unknown fields are refused", sizes=(0, 1, 2))
def field_access(env):
    E = env.E
    Table = env.mod("karta.vector.table").Table
    T, n, val, w = table(env)
    j = E.choose(w + 1)
    name = F[j] if j < w else "z"
    if E.choose(2) == 0:
        try:
            r = T.getfield(name)
        except KeyError:
            E.prove("only unknown fields are refused", j == w)
            return
        E.prove("unknown fields are refused", j < w)
        E.prove("as many values", count(r) == n)
        k = pos(env, "k", n)
        E.prove("the values of the field", pick(r, k) == val(k, j))
        is_list(env, "reading", T, F[:w], n, lambda q: [val(q, i) for i in range(w)])
        return
    m, new, col = rows(env, "new", 1)
    if env.size is None:
        col = SSeq(m, lambda k: new(k, 0), True)
    else:
        m = env.size + E.choose(2)
        col = [new(k, 0) for k in range(m)]
    try:
        T.setfield(name, col)
    except ValueError:
        E.prove("refused only with another length", And(n != 0, m != n))
        is_list(env, "refused", T, F[:w], n, lambda q: [val(q, i) for i in range(w)])
        return
    E.prove("another length is refused", Or(n == 0, m == n))
    if E.branch((n == 0).t if hasattr(n == 0, "t") else z3.BoolVal(n == 0)):
        is_list(env, "an empty table", T, (name,), m, lambda q: [new(q, 0)])
    elif j < w:
        is_list(env, "a field set", T, F[:w], n, lambda q: [new(q, 0) if i == j else val(q, i) for i in range(w)])
    else:
        is_list(env, "a field added", T, F[:w] + ("z",), n, lambda q: [val(q, i) for i in range(w)] + [new(q, 0)])


@contract("karta.vector.table.Table.extend: the rows of both, None where a field is missing", sizes=(0, 1, 2))
def extend(env):
    E = env.E
    T, n, val, w = table(env)
    names = (("a",), ("b", "a"), ("c", "z", "b"), ("z",))[E.choose(4)]
    O, m, oval, ow = table(env, "o", fields=names)
    want = lambda k: [oval(k, names.index(f)) if f in names else None for f in F[:w]]
    if env.size is None:
        T._data = Growing("rows", T._data.n, T._data.f, lambda k: tuple(want(k)))
    T.extend(O)
    is_list(env, "extended", T, F[:w], n + m, lambda k: [val(k, j) for j in range(w)] if E.branch((k < n).t if hasattr(k < n, "t") else z3.BoolVal(k < n)) else want(k - n))
    is_list(env, "the other table", O, names, m, lambda k: [oval(k, j) for j in range(ow)])


@contract("karta.vector.table.Table.updated: a new table with the fields given and the others", sizes=(1, 2))
def updated(env):
    E = env.E
    Table = env.mod("karta.vector.table").Table
    T, n, val, w = table(env)
    E.assume(n >= 1)
    names = (("a",), ("b", "z"), ("z",))[E.choose(3)]
    m, oval, data = rows(env, "o", len(names), n=None if env.size is None else env.size)
    other = E.choose(2)
    if other:
        given = Table(data=data, fields=names)
    else:
        given = dict((f, SSeq(m, lambda k, j=j: oval(k, j), True) if env.size is None else [oval(k, j) for k in range(env.size)]) for j, f in enumerate(names))
    try:
        R = T.updated(given)
    except ValueError:
        E.prove("refused only with another length", m != n)
        return
    E.prove("another length is refused", m == n)
    fields = set(names) | set(F[:w])
    E.prove("fields", R.fields == fields and len(R._fields) == len(fields))
    E.prove("as many rows", len_(R) == n)
    k = pos(env, "k", n)
    row = at(R, k)
    for f in sorted(fields):
        v = row[R._fields.index(f)]
        E.prove("values", v == (oval(k, names.index(f)) if f in names else val(k, F.index(f))))
    is_list(env, "the table", T, F[:w], n, lambda q: [val(q, i) for i in range(w)])


@contract("karta.vector.table.merge: the rows of all items in order, with the fields they share (Table.extend by its contract)")
def merged(env):
    E = env.E
    m = env.mod("karta.vector.table")
    log = []

    def extend(self, other):
        self._data.append(("rows of", other, self._fields))
    m.Table.extend = extend
    T, n, val, w = table(env, width=2)
    O, p, oval, ow = table(env, "o", fields=(("a", "b"), ("b", "z"), ("c", "b", "a"))[E.choose(3)])
    d = {"b": E.real("x"), "a": E.real("y")}
    if E.choose(2):
        d["q"] = 1
    items = [(T, O), (T, d), (d, O, T), (T,)][E.choose(4)]
    R = m.merge(list(items))
    shared = set(F[:2])
    for i in items:
        shared &= set(i._fields) if i is not d else set(d)
    E.prove("the fields shared", R.fields == shared and len(R._fields) == len(shared))
    E.prove("every item once, in order", len(R._data) == len(items))
    for got, i in zip(R._data, items):
        if i is d:
            E.prove("a mapping is a row", And(len(got) == len(R._fields), *[a == d[f] for a, f in zip(got, R._fields)]))
        else:
            E.prove("the rows of a table", got[0] == "rows of" and got[1] is i and got[2] == R._fields)


@contract("karta.vector.table.Indexer: a row by its number, rows by a slice, a field by its name; other keys are refused")
def indexer(env):
    E = env.E
    m = env.mod("karta.vector.table")

    class T(object):
        def get(self, i):
            return ("row", i)

        def getfield(self, f):
            return ("field", f)
    I = m.Indexer(T())
    i = E.int("i")
    k = (i, 3, slice(1, 2), "a", 1.5, None, (1,))[E.choose(7)]
    try:
        r = I[k]
    except KeyError:
        E.prove("only other keys are refused", k is None or isinstance(k, (float, tuple)))
        return
    E.prove("other keys are refused", not (k is None or isinstance(k, (float, tuple))))
    E.prove("the answer of the table", r[0] == ("field" if isinstance(k, str) else "row") and r[1] is k)
    try:
        m.Indexer(None)
    except KeyError:
        return
    E.prove("no table, no index", False)


@contract("karta.vector.table.Table.get: a slice gives the columns of its rows", sizes=(1, 2, 3))
def get_slice(env):
    E = env.E
    T, n, val, w = table(env)
    a, b = E.int("a", 0), E.int("b")
    E.assume(And(a <= b, b <= n))
    if env.size is not None:
        a, b = E.choose(env.size + 1), E.choose(env.size + 1)
        if a > b:
            return
    r = T.get(slice(a, b))
    E.prove("fields", r.keys() == set(F[:w]))
    k = E.int("k", 0)
    E.assume(k < b - a)
    for j in range(w):
        E.prove("as many values", count(r[F[j]]) == b - a)
        E.prove("values", pick(r[F[j]], k) == val(a + k, j))


@contract("karta.vector.table.Table: made without rows")
def without(env):
    E = env.E
    Table = env.mod("karta.vector.table").Table
    k = E.choose(4)
    if k == 0:
        T = Table(size=3, fields=("a", "b"))
        E.prove("fields and size", T.fields == {"a", "b"} and len(T) == 3)
    elif k == 1:
        T = Table(size=2)
        E.prove("no fields", T.fields == set() and len(T) == 2)
    elif k == 2:
        T = Table({})
        E.prove("nothing", T.fields == set() and len(T) == 0)
    else:
        try:
            Table()
        except ValueError:
            E.prove("neither data nor size", True)
            return
        E.prove("neither data nor size", False)
