"""P02: indexing a grid reads and writes the cells addressed."""
import z3
from vf.main import contract
from vf.sym import And, Or, Not, Implies, If, SNum, SBool, term, const
from vf import npshim as NP
from contracts.rast import Stack

STEPS = (None, 1, 2, 3, -1, -2)


def key(E, name, n, kinds, steps=STEPS, nforms=4):
    """(key, number of cells or None for an integer, index of the k-th, whether it addresses nothing legal)"""
    if kinds == "int":
        i = E.int(name)
        return i, None, (lambda k: If(i < 0, i + n, i)), Not(And(i >= 0 - n, i < n))
    a, b = E.int(name + "a"), E.int(name + "b")
    st = steps[E.choose(len(steps))]
    sl = (slice(a, b, st), slice(None, None, st), slice(a, None, st), slice(None, b, st))[E.choose(nforms)]
    s0, ln, s = NP.slice_(sl, n)
    return sl, ln, (lambda k: s0 + k * s), False


def indexer(env, s):
    return env.mod("karta.raster.band").BandIndexer(s)


def getter(name, forms, steps, nforms=4):
    @contract("karta.raster.band.BandIndexer.__getitem__: %s: exactly the cells addressed, in order, for any grid and number of bands" % name,
              abs_all=True, sizes=(1, 2))
    def get(env):
        E = env.E
        s = Stack(env)
        dims = [key(E, nm, n, f, steps, nforms) for nm, n, f in zip("rcb", (s.H, s.W, s.B), forms)]
        illegal = Or(*[d[3] for d in dims])
        full = dims + [(None, n, lambda k: k, False) for n in (s.H, s.W, s.B)[len(dims):]]
        # the position looked at
        pos = [E.int("p" + nm, 0) for nm in "rcb"]
        for p, d in zip(pos, full):
            E.assume(p == 0 if d[1] is None else p < d[1])
        E.skolem = tuple(pos)
        goal = s.A.at(*[d[2](p) for p, d in zip(pos, full)])
        E.arr_inv = lambda u, fn, fn0, k, loop: [("read", Implies(pos[2] < k, fn(*pos) == goal))] if u != s.A.uid else []
        k = tuple(d[0] for d in dims)
        try:
            r = indexer(env, s)[k if len(k) > 1 else k[0]]
        except IndexError:
            E.prove("raises only out of range", illegal)
            return
        E.prove("out of range is refused", Not(illegal))
        kept = [(p, d[1]) for p, d in zip(pos, full) if d[1] is not None]
        if kept:
            E.prove("shape", And(*[r.shape[i] == n for i, (p, n) in enumerate(kept)] + [len(r.shape) == len(kept)]))
            r = r.at(*[p for p, n in kept])
        E.prove("cell", r == goal)
    return get


getter("integers", ("int", "int", "int"), STEPS)
getter("row slices", ("slice", "int", "int"), STEPS)
getter("column slices", ("int", "slice", "int"), STEPS)
getter("band slices", ("int", "int", "slice"), (None, 3, -1))
getter("row and column slices, all bands", ("slice", "slice"), (None, -1), 2)
getter("three slices", ("slice", "slice", "slice"), (None, -2), 1)
getter("a cell of every band", ("int", "int"), STEPS)
getter("rows of every band", ("slice",), STEPS)


def setter(name, forms, kind, nforms=4):
    @contract("karta.raster.band.BandIndexer.__setitem__: %s: the cells addressed get their values, all others are unchanged" % name, abs_all=True, sizes=(1, 2))
    def put(env):
        E = env.E
        s = Stack(env)
        dims = [key(E, nm, n, f, (None,), nforms) for nm, n, f in zip("rcb", (s.H, s.W, s.B), forms)]
        illegal = Or(*[d[3] for d in dims])
        full = dims + [(None, n, lambda k: k, False) for n in (s.H, s.W, s.B)[len(dims):]]
        # which position of the key the cell has
        cell, pos, inside = (s.Y, s.X, s.Z), [], []
        for c, d in zip(cell, full):
            if d[1] is None:
                pos.append(0)
                inside.append(c == d[2](0))
            else:
                p = c - d[2](0)
                pos.append(p)
                inside.append(And(0 <= p, p < d[1]))
        inside = And(*inside)
        shape = [1 if d[1] is None else d[1] for d in full]
        if kind == "number":
            v = val = E.real("value")
        elif kind == "cells":
            v = NP.symbolic("values", tuple(shape))
            val = v.at(*pos)
        elif kind == "layer":
            v = NP.symbolic("values", tuple(shape[:2]))
            val = v.at(*pos[:2])
        elif kind == "bands":
            v = NP.symbolic("values", (shape[2],))
            val = v.at(pos[2])
        old = s.cell()
        goal = If(inside, val, old)
        b0 = full[2][2](0)
        E.skolem = cell

        def inv(u, fn, fn0, k, loop):
            if u != s.A.uid:
                return []
            done = And(inside, s.Z - b0 < k)
            return [("done", Implies(done, fn(*cell) == val)), ("rest", Implies(Not(done), fn(*cell) == old))]
        E.arr_inv = inv
        k = tuple(d[0] for d in dims)
        try:
            indexer(env, s)[k if len(k) > 1 else k[0]] = v
        except IndexError:
            E.prove("raises only out of range", illegal)
            return
        E.prove("out of range is refused", Not(illegal))
        E.prove("every cell", s.cell() == goal)
    return put


setter("a number", ("slice", "slice", "slice"), "number", 1)
setter("a number in a cell", ("int", "int", "int"), "number")
setter("a number in rows", ("slice",), "number")
setter("cells", ("slice", "slice", "slice"), "cells", 1)
setter("cells of a row and band", ("int", "slice", "int"), "cells")
setter("one layer for every band", ("slice", "slice"), "layer")
setter("one number for each band", ("int", "int"), "bands")


@contract("karta.raster.band.BandIndexer.__setitem__: steps are refused", abs_all=True, sizes=(1, 2))
def stepped(env):
    E = env.E
    s = Stack(env)
    st = (2, -1)[E.choose(2)]
    sl = slice(E.int("a"), E.int("b"), st)
    k = ((sl, slice(None)), (slice(None), sl))[E.choose(2)]
    old = s.cell()
    try:
        indexer(env, s)[k] = E.real("value")
    except NotImplementedError:
        E.prove("unchanged", s.cell() == old)
        return
    E.prove("refused", False)


def masks(name, nd, kind):
    @contract("karta.raster.band.BandIndexer: masks: %s" % name, abs_all=True, sizes=(1, 2))
    def con(env):
        E = env.E
        s = Stack(env)
        shape = (s.H, s.W, s.B)[:nd]
        m = NP.symbolic("mask", shape, "bool")
        cell = (s.Y, s.X, s.Z)
        E.skolem = cell
        sel = NP.Sel.of(m)
        rk = sel.rank(*cell[:nd])
        on = m.at(*cell[:nd])
        old = s.cell()
        bx = indexer(env, s)
        if kind == "read":
            k = E.int("k", 0)
            E.assume(k < sel.count)
            at = sel.pos(k) + [s.Z] * (3 - nd)
            E.skolem = tuple(at)
            E.arr_inv = lambda u, fn, fn0, i, loop: [("read", Implies(at[2] < i, fn(*at) == s.A.at(*at)))] if u != s.A.uid else []
            r = bx[m]
            E.prove("as many as selected", And(r.shape[0] == sel.count, len(r.shape) == 4 - nd, *([r.shape[1] == s.B] if nd == 2 else [])))
            E.prove("the selected cells in order", r.at(k, *([s.Z] if nd == 2 else [])) == s.A.at(*at))
            return
        if kind == "number":
            v = val = E.real("value")
        elif kind == "list":
            v = NP.symbolic("values", (sel.count,))
            val = v.at(rk)
        else:
            v = NP.symbolic("values", (sel.count, s.B))
            val = v.at(rk, s.Z)
        goal = If(on, val, old)

        def inv(u, fn, fn0, k, loop):
            if u != s.A.uid:
                return [("read", Implies(s.Z < k, fn(*cell) == s.A.at(*cell)))]
            return [("done", Implies(s.Z < k, fn(*cell) == goal)), ("rest", Implies(Not(s.Z < k), fn(*cell) == old))]
        E.arr_inv = inv
        bx[m] = v
        E.prove("every cell", s.cell() == goal)
    return con


masks("cells read through a mask of cells", 2, "read")
masks("cells read through a mask of cells and bands", 3, "read")
masks("a number through a mask of cells", 2, "number")
masks("a number through a mask of cells and bands", 3, "number")
masks("values through a mask of cells", 2, "list")
masks("values for every band through a mask of cells", 2, "table")
masks("values through a mask of cells and bands", 3, "list")
