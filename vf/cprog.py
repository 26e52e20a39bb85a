"""Contracts on the C code: a verification-condition generator for the C subset of
the headers.

The functions are taken from clang's syntax tree of the current source on every
run.  Memory is one array per structure member (and per member of the elements
of an allocated array), indexed by an object number and, for array elements, a
position; a pointer is an object number, a position and, when it points to a
member, the number of that member.  A function with a contract is checked
against it and represented by it at its calls; one without is executed at its
calls.  Loops are cut at the invariants given.  Ghost state is only ever changed
by the contract.

Not modelled: the width of int, the rounding of doubles (both are mathematical
numbers), memory reuse after free (free does nothing), termination, and failure of malloc."""
import json
import os
import re
import subprocess
import time

import z3

from .sym import Obl, PathEnd, Unsupported, TooLong

CASTS = ("NoOp", "BitCast", "FunctionToPointerDecay", "ArrayToPointerDecay", "IntegralCast", "FloatingCast", "ToVoid", "NonAtomicToAtomic")


class Ptr(object):
    def __init__(self, base, off=0, fld=0):
        self.base, self.off, self.fld = ival(base), ival(off), ival(fld)


class Bytes(object):
    """the value of malloc before it gets a type"""
    def __init__(self, n):
        self.n = n


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


def ival(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def forall(vs, body, pats=None):
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


class Source(object):
    def __init__(self, path):
        self.path = path
        d = os.path.dirname(path)
        out = subprocess.run(["clang", "-x", "c", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-I", d, "-"],
                             input='#include "%s"\n' % os.path.basename(path), text=True, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE)
        if out.returncode:
            raise Unsupported("the header does not compile: " + out.stderr[:300])
        ast = json.loads(out.stdout)
        self.funcs, self.fields, self.structs, self.unions, self.typedefs, self.enums = {}, {}, {}, set(), {}, {}
        self.tags = {}
        recs = {}
        for n in ast["inner"]:
            k = n["kind"]
            if k == "RecordDecl" and n.get("completeDefinition"):
                recs[n["id"]] = n
                nm = n.get("name")
                if nm is None:
                    continue
                fs = [(f["name"], f["type"]["qualType"], f["id"]) for f in n["inner"] if f["kind"] == "FieldDecl"]
                (self.unions.add(nm) if n["tagUsed"] == "union" else None)
                self.structs[nm] = fs
                self.tags[nm] = n["tagUsed"]
            elif k == "TypedefDecl":
                q = n["type"].get("desugaredQualType", n["type"]["qualType"])
                self.typedefs[n["name"]] = n["type"]["qualType"]
            elif k == "EnumDecl":
                v = 0
                for c in n["inner"]:
                    if c["kind"] == "EnumConstantDecl":
                        for x in c.get("inner", []):
                            if x["kind"] == "ConstantExpr":
                                v = int(x["value"])
                        self.enums[c["id"]] = (c["name"], v)
                        v += 1
            elif k == "FunctionDecl" and any(x["kind"] == "CompoundStmt" for x in n.get("inner", [])):
                self.funcs[n["name"]] = n
        # names: a structure is known under its typedef
        self.alias = {}
        for t, q in self.typedefs.items():
            m = re.match(r"(struct|union) (\w+)$", q)
            if m:
                self.alias[m.group(2)] = t
        self.names = {}
        for nm, fs in self.structs.items():
            a = self.alias.get(nm, nm)
            self.names[a] = fs
            for f, t, i in fs:
                self.fields[i] = (a, f, t)
        self.unions = set(self.alias.get(u, u) for u in self.unions)
        # members at the same place with the same type, in structures joined by a union
        self.same = {}
        for u in self.unions:
            ms = [self.struct(t[:-1].strip()) for f, t, i in self.names[u] if t.endswith("*")]
            ms = [m for m in ms if m in self.names]
            for m in ms[1:]:
                for (f, t, i), (g, s, j) in zip(self.names[ms[0]], self.names[m]):
                    if (f, t) != (g, s):
                        break
                    self.same[m + "." + g] = ms[0] + "." + f
        # structures that are elements of arrays
        self.elems = set()
        for f in self.funcs.values():
            self._elems(f)
        self.numbers = {}
        for a in sorted(self.names):
            for f, t, i in self.names[a]:
                self.numbers[a + "." + f] = len(self.numbers) + 1

    def _elems(self, n):
        if n.get("kind") == "ArraySubscriptExpr":
            t = n["type"]["qualType"]
            if self.kind(t) == "struct":
                self.elems.add(self.struct(t))
        for c in n.get("inner", []):
            self._elems(c)

    def struct(self, t):
        t = re.sub(r"^(struct|union) ", "", t.replace("const ", "").strip())
        return self.alias.get(t, t)

    def kind(self, t):
        t = t.replace("const ", "").strip()
        if t.endswith("*"):
            return "ptr"
        if t in ("float", "double"):
            return "real"
        s = self.struct(t)
        if s in self.unions:
            return "ptr"
        if s in self.names:
            return "struct"
        if t == "void":
            return "void"
        return "int"

    def sizeof(self, t):
        k = self.kind(t)
        t = t.strip()
        if k == "ptr":
            return 8
        if k == "struct":
            al, n = 1, 0
            for f, ft, i in self.names[self.struct(t)]:
                s = self.sizeof(ft)
                a = min(s, 8)
                al = max(al, a)
                n = (n + a - 1) // a * a + s
            return (n + al - 1) // al * al
        return {"double": 8, "float": 4, "char": 1, "long": 8, "size_t": 8}.get(t, 4)


class State(object):
    def __init__(self):
        self.mem, self.ghost, self.next = {}, {}, None

    def copy(self):
        s = State()
        s.mem, s.ghost, s.next = dict(self.mem), dict(self.ghost), self.next
        s.c = self.c
        return s

    def __getitem__(self, key):
        return self.c.array(self, key)

    def f(self, key, b, o=None):
        """the value of a member: of object b, or of the element (b, o)"""
        a = self.c.array(self, key)
        return z3.Select(a, b) if o is None else z3.Select(z3.Select(a, b), o)

    def g(self, name):
        return self.ghost[name]


class Contract(object):
    """pre(S, a) and post(S0, S, a, r): lists of (name, formula); modifies: memory arrays and
    ghost names; exit(S0, S, a, r, locals): changes of ghost state when the function ends"""
    def __init__(self, pre=None, post=None, modifies=(), ghosts=(), exit=None, update=None, start=None):
        self.pre = pre or (lambda S, a: [])
        self.post = post or (lambda S0, S, a, r: [])
        self.modifies, self.ghosts, self.exit, self.update, self.start = set(modifies), tuple(ghosts), exit, update, start


class Loop(object):
    """inv(S0, S, l): facts about the state at the head of the loop, where S0 is the state
    before it and l the local variables; step(S, S1, l, l1): ghost changes after one iteration"""
    def __init__(self, inv, modifies=(), ghosts=(), step=None, enter=None, leave=None, alloc=False):
        self.inv, self.modifies, self.ghosts, self.step, self.enter, self.leave = inv, set(modifies), tuple(ghosts), step, enter, leave
        self.alloc = alloc


class Prog(object):
    def __init__(self, E, root, header, contracts=None, loops=None, hints=None):
        self.E = E
        c = E.__dict__.setdefault("ccache", {})
        if header not in c:
            c[header] = Source(os.path.join(root, header))
        self.src = c[header]
        self.cache = c
        self.header = header
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.facts = []
        self.nfresh = 0
        self.hooks = {}          # (function, callee): ghost changes before the call
        self.seen_obl = {}
        self.triple = {}

    # ---- logic
    def fresh(self, base, sort):
        self.nfresh += 1
        return z3.Const("%s!%d" % (base, self.nfresh), sort)

    def assume(self, f):
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.facts.append(f)
        if not quantified(f):
            self.E.add(f)

    def name(self, t, base="let"):
        """a constant for a term: patterns may not hold conditions"""
        c = self.fresh(base, t.sort())
        self.assume(c == t)
        return c

    def prove(self, name, f, timeout=None):
        f = z3.simplify(f) if not quantified(f) else f
        t0 = time.time()
        # paths with a common beginning have its obligations in common
        key = (f.get_id(),) + tuple(x.get_id() for x in self.facts)
        if key in self.cache:
            self.cached(name, self.cache[key][0], f)
            return
        if z3.is_true(f):
            st, why = "proved", ""
        else:
            if self.E.deadline and time.time() > self.E.deadline:
                raise TooLong("time budget of the contract exhausted")
            st, why = self.decide(f, timeout or 8000)
        dt = time.time() - t0
        self.E.solver_s += dt
        self.E.obls.append(Obl(name, st, "z3", dt, why))
        self.cache[key] = ((st, why), list(self.facts), f)
        self.later(st, f)

    def later(self, st, f):
        """what later obligations of the path may use: quantified facts only make them harder"""
        if st == "proved" and not z3.is_true(f) and not quantified(f):
            self.assume(f)

    def cached(self, name, r, f):
        self.E.obls.append(Obl(name, r[0], "z3", 0.0, r[1]))
        self.later(r[0], f)

    def decide(self, f, timeout):
        for mbqi in (False,):
            s = z3.SimpleSolver()
            s.set("auto_config", False)
            s.set("smt.mbqi", mbqi) if False else s.set("mbqi", mbqi)
            s.set("timeout", timeout)
            s.add(*self.facts)
            s.add(z3.Not(f))
            r = s.check()
            if r == z3.unsat:
                return "proved", ""
        if r == z3.sat and not any(quantified(x) for x in self.facts) and not quantified(f):
            return "refuted", "counterexample: " + str(s.model())[:600]
        return "unknown", "not established: " + s.reason_unknown()

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        v = self.E.branch(c)
        self.facts.append(c if v else z3.Not(c))
        return v

    # ---- memory
    def key(self, k):
        return self.src.same.get(k, k)

    def array(self, S, key):
        key = self.key(key)
        if key not in S.mem:
            S.mem[key] = self.initial(key)
        return S.mem[key]

    def initial(self, key):
        """the arrays a state does not mention are those at the start of the path"""
        if key not in self.start:
            self.start[key] = z3.Const(key, self.sort(key))
        return self.start[key]

    def sort(self, key):
        st, f = key.split(".", 1) if "." in key else (None, key)
        if key.startswith("elem:"):
            v = {"int": z3.IntSort(), "real": z3.RealSort(), "ptr.base": z3.IntSort(), "ptr.off": z3.IntSort(), "ptr.fld": z3.IntSort()}[key[5:]]
            return z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), v))
        if key.startswith("cell:"):
            return z3.ArraySort(z3.IntSort(), z3.RealSort() if key[5:] == "real" else z3.IntSort())
        if key.startswith("size:"):
            return z3.ArraySort(z3.IntSort(), z3.IntSort())
        t = dict((g, t) for g, t, i in self.src.names[st])[f]
        v = z3.RealSort() if self.src.kind(t) == "real" else z3.IntSort()
        if st in self.src.elems:
            return z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), v))
        return z3.ArraySort(z3.IntSort(), v)

    def ftype(self, key):
        st, f = key.split(".", 1)
        return dict((g, t) for g, t, i in self.src.names[st])[f]

    def rd(self, S, key, p, elem=None):
        key = self.key(key)
        el = key.startswith("elem:") or key.split(".")[0] in self.src.elems
        return S.f(key, p.base, p.off) if el else S.f(key, p.base)

    def wr(self, S, key, p, v):
        key = self.key(key)
        a = self.array(S, key)
        el = key.startswith("elem:") or key.split(".")[0] in self.src.elems
        if conditional(v):
            v = self.name(v)
        p = Ptr(*[self.name(x) if conditional(x) else x for x in (p.base, p.off, p.fld)])
        if el:
            S.mem[key] = z3.Store(a, p.base, z3.Store(z3.Select(a, p.base), p.off, v))
        else:
            S.mem[key] = z3.Store(a, p.base, v)

    def valid(self, p, what):
        self.prove("%s: no NULL pointer is followed" % self.fn, p.base != 0)

    # an lvalue: ("var", id) ("varfld", id, field) ("fld", key, P, type) ("cell", type, P)
    def load(self, lv):
        S = self.S
        if lv[0] == "var":
            if lv[1] not in self.env:
                raise Unsupported("a variable that was not given a value")
            v = self.env[lv[1]]
            if v is None:
                # an uninitialised variable
                raise Unsupported("a variable is read before it is given a value")
            return v
        if lv[0] == "varfld":
            return self.env[lv[1]][lv[2]]
        if lv[0] == "fld":
            key, p, t = lv[1:]
            return self.wrap(t, self.rd(S, key, p))
        t, p = lv[1:]
        k = self.src.kind(t)
        if k == "struct":
            st = self.src.struct(t)
            return dict((f, self.load(("fld", st + "." + f, p, ft))) for f, ft, i in self.src.names[st])
        opts = self.pointees(t, p)
        r = None
        for c, get, put in reversed(opts):
            v = get()
            if r is None:
                r = v
            elif isinstance(v, Ptr):
                r = Ptr(z3.If(c, v.base, r.base), z3.If(c, v.off, r.off), z3.If(c, v.fld, r.fld))
            else:
                r = z3.If(c, v, r)
        return r

    def pointees(self, t, p):
        """what a pointer to t may point at: [(condition, read, write)]"""
        k = self.src.kind(t)
        S = self.S
        out = []
        fld = z3.simplify(p.fld)
        names = []
        if not (z3.is_int_value(fld) and fld.as_long() == 0):
            for a in sorted(self.src.names):
                if a in self.src.unions:
                    continue
                for f, ft, i in self.src.names[a]:
                    kk = a + "." + f
                    if self.key(kk) == kk and self.src.struct(ft) == self.src.struct(t):
                        names.append((kk, ft))
        for kk, ft in names:
            def get(kk=kk, ft=ft):
                return self.wrap(ft, self.rd(S, kk, p))

            def put(v, kk=kk):
                self.wr(S, kk, p, self.unwrap(v))
            c = fld == self.src.numbers[kk]
            if z3.is_true(z3.simplify(c)):
                return [(c, get, put)]
            if not z3.is_false(z3.simplify(c)):
                out.append((c, get, put))
        if not z3.is_int_value(fld) or fld.as_long() == 0:
            if self.src.struct(t) in self.src.unions:
                out.append((z3.BoolVal(True), lambda: Ptr(S.f("cell:ptr", p.base)), lambda v: self.wr(S, "cell:ptr", p, self.unwrap(v))))
            elif k == "ptr":
                ks = ["elem:ptr." + x for x in ("base", "off", "fld")]

                def put(v):
                    for kk, x in zip(ks, (v.base, v.off, v.fld)):
                        self.wr(S, kk, p, x)
                out.append((z3.BoolVal(True), lambda: Ptr(*[self.rd(S, x, p) for x in ks]), put))
            else:
                out.append((z3.BoolVal(True), lambda: self.rd(S, "elem:" + k, p), lambda v: self.wr(S, "elem:" + k, p, v)))
        return out

    def wrap(self, t, v):
        return Ptr(v) if self.src.kind(t) == "ptr" else v

    def unwrap(self, v):
        if isinstance(v, Ptr):
            for x in (v.off, v.fld):
                x = z3.simplify(x)
                if not (z3.is_int_value(x) and x.as_long() == 0):
                    self.prove("%s: only pointers to whole objects are kept in structures" % self.fn, x == 0)
            return v.base
        return v

    def store(self, lv, v):
        S = self.S
        if lv[0] == "var":
            self.env[lv[1]] = v
        elif lv[0] == "varfld":
            d = dict(self.env[lv[1]])
            d[lv[2]] = v
            self.env[lv[1]] = d
        elif lv[0] == "fld":
            self.wr(S, lv[1], lv[2], self.unwrap(self.conv(v, lv[3])))
        else:
            t, p = lv[1:]
            if self.src.kind(t) == "struct":
                st = self.src.struct(t)
                for f, ft, i in self.src.names[st]:
                    self.store(("fld", st + "." + f, p, ft), v[f])
                return
            opts = self.pointees(t, p)
            if len(opts) != 1:
                raise Unsupported("a store through a pointer that may point to several members")
            opts[0][2](self.conv(v, t))

    def conv(self, v, t):
        k = self.src.kind(t)
        if z3.is_expr(v):
            if z3.is_bool(v) and k in ("int", "real"):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if k == "real" and z3.is_int(v):
                v = z3.ToReal(v)
            if k == "ptr" and z3.is_int(v):
                v = Ptr(v)
        return v

    def new(self, S=None):
        S = S or self.S
        p = S.next
        self.assume(p > 0)
        S.next = z3.simplify(p + 1)
        return p

    # ---- expressions
    def lv(self, n):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            i = n["referencedDecl"]["id"]
            if i in self.boxed:
                t = n["type"]["qualType"]
                return ("cell", t, self.boxed[i])
            return ("var", i)
        if k == "MemberExpr":
            st, f, t = self.src.fields[n["referencedMemberDecl"]]
            if n.get("isArrow"):
                p = self.ev(n["inner"][0])
                self.valid(p, f)
                if st in self.src.unions:
                    return ("cell", st, p)
                return ("fld", st + "." + f, p, t)
            b = self.lv(n["inner"][0])
            if st in self.src.unions:
                return b
            if b[0] == "cell":
                return ("fld", st + "." + f, b[2], t)
            if b[0] == "var":
                return ("varfld", b[1], f)
            raise Unsupported("a member of a member")
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0])
            self.valid(p, "*")
            return ("cell", n["type"]["qualType"], p)
        if k == "ArraySubscriptExpr":
            p, i = self.ev(n["inner"][0]), self.ev(n["inner"][1])
            self.valid(p, "[]")
            o = z3.simplify(p.off + toint(i))
            if self.bounds:
                self.prove("%s: array index in range" % self.fn, z3.And(o >= 0, o < self.S.f(self.sizekey(n["type"]["qualType"]), p.base)))
            return ("cell", n["type"]["qualType"], Ptr(p.base, o, p.fld))
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n["castKind"] in CASTS:
            return self.lv(n["inner"][0])
        raise Unsupported("an lvalue of kind %s" % k)

    def ev(self, n):
        k = n["kind"]
        if k == "ParenExpr" or k == "ConstantExpr":
            return self.ev(n["inner"][0])
        if k == "IntegerLiteral":
            return z3.IntVal(int(n["value"]))
        if k == "FloatingLiteral":
            return z3.RealVal(str(n["value"])) if "e" not in n["value"].lower() else z3.RealVal(int(float(n["value"])) if float(n["value"]) == int(float(n["value"])) else n["value"])
        if k == "DeclRefExpr" and n["referencedDecl"]["kind"] == "EnumConstantDecl":
            return z3.IntVal(self.src.enums[n["referencedDecl"]["id"]][1])
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
            return self.load(self.lv(n))
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            c = n["castKind"]
            x = n["inner"][0]
            if c == "LValueToRValue":
                return self.load(self.lv(x))
            if c == "NullToPointer":
                return Ptr(0)
            v = self.ev(x)
            if c == "IntegralToFloating":
                return z3.ToReal(toint(v))
            if c == "PointerToBoolean":
                return v.base != 0
            if isinstance(v, Bytes):
                t = n["type"]["qualType"].strip()
                if t == "void *":
                    return v
                return self.typed(v, t[:-1].strip())
            if c in CASTS:
                return v
            raise Unsupported("a cast of kind %s" % c)
        if k == "UnaryExprOrTypeTraitExpr":
            t = n["argType"]["qualType"] if "argType" in n else n["inner"][0]["type"]["qualType"]
            return z3.IntVal(self.src.sizeof(t))
        if k == "UnaryOperator":
            op = n["opcode"]
            x = n["inner"][0]
            if op == "&":
                l = self.lv(x)
                if l[0] == "cell":
                    return l[2]
                if l[0] == "fld":
                    return Ptr(l[2].base, l[2].off, self.src.numbers[self.key(l[1])])
                raise Unsupported("the address of a variable")
            if op == "*":
                return self.load(self.lv(n))
            if op in ("++", "--"):
                l = self.lv(x)
                v = self.load(l)
                w = v + (1 if op == "++" else -1)
                self.store(l, z3.simplify(w))
                return v if n.get("isPostfix") else w
            v = self.ev(x)
            if op == "-":
                return -v
            if op == "!":
                return z3.Not(truth(v))
            raise Unsupported("operator " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            a, b = n["inner"]
            if op == "=":
                v = self.ev(b)
                l = self.lv(a)
                v = self.conv(v, a["type"]["qualType"])
                self.store(l, v)
                return v
            if op == "&&":
                if not self.sides(b):
                    return z3.And(truth(self.ev(a)), truth(self.ev(b)))
                return truth(self.ev(b)) if self.branch(truth(self.ev(a))) else z3.BoolVal(False)
            if op == "||":
                if not self.sides(b):
                    return z3.Or(truth(self.ev(a)), truth(self.ev(b)))
                return z3.BoolVal(True) if self.branch(truth(self.ev(a))) else truth(self.ev(b))
            if op == ",":
                self.ev(a)
                return self.ev(b)
            return binop(op, self.ev(a), self.ev(b))
        if k == "CompoundAssignOperator":
            a, b = n["inner"]
            l = self.lv(a)
            v = self.conv(binop(n["opcode"][:-1], self.load(l), self.ev(b)), a["type"]["qualType"])
            self.store(l, v)
            return v
        if k == "ConditionalOperator":
            c, a, b = n["inner"]
            c = truth(self.ev(c))
            if not self.sides(a) and not self.sides(b):
                x, y = self.ev(a), self.ev(b)
                if z3.is_expr(x) and z3.is_expr(y):
                    return z3.If(c, x, y) if x.sort() == y.sort() else z3.If(c, toint(x), toint(y))
            return self.ev(a) if self.branch(c) else self.ev(b)
        if k == "CallExpr":
            return self.call(n)
        raise Unsupported("an expression of kind %s" % k)

    def sides(self, n):
        if n["kind"] in ("CallExpr", "CompoundAssignOperator") or n["kind"] == "BinaryOperator" and n["opcode"] == "=" \
                or n["kind"] == "UnaryOperator" and n["opcode"] in ("++", "--"):
            return True
        return any(self.sides(c) for c in n.get("inner", []))

    def typed(self, v, t):
        """the object malloc makes"""
        p = self.new()
        n = z3.simplify(v.n / self.src.sizeof(t)) if z3.is_int(v.n) else v.n
        # (c*s) / s, for a number of elements
        m = self.fresh("cells", z3.IntSort())
        s = self.src.sizeof(t)
        self.assume(z3.And(m * s <= v.n, v.n < m * s + s))
        k = self.sizekey(t)
        if k:
            self.S.mem[k] = z3.Store(self.array(self.S, k), p, m)
        return Ptr(p)

    def sizekey(self, t):
        k = self.src.kind(t)
        if k == "struct":
            return "size:" + self.src.struct(t) if self.src.struct(t) in self.src.elems else None
        return "size:" + k

    def call(self, n):
        f = n["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        name = f["referencedDecl"]["name"]
        args = n["inner"][1:]
        if name == "printf":
            return z3.IntVal(0)
        if name == "exit":
            self.prove("%s: the program is not ended" % self.fn, z3.BoolVal(False))
            raise PathEnd()
        if name == "malloc":
            return Bytes(toint(self.ev(args[0])))
        if name == "free":
            self.ev(args[0])
            return None
        vals = [self.ev(a) for a in args]
        if name in ("fmin", "fmax", "fminf", "fmaxf"):
            a, b = vals
            return z3.If(a <= b, a, b) if name.startswith("fmin") else z3.If(a >= b, a, b)
        if name in ("fabs", "fabsf"):
            return z3.If(vals[0] >= 0, vals[0], -vals[0])
        if name not in self.src.funcs:
            raise Unsupported("a call of %s" % name)
        self.E.functions.add("%s:%s" % (self.header, name))
        if name in self.contracts:
            return self.by_contract(name, vals)
        return self.inline(name, vals)

    def params(self, name):
        return [(p["id"], p.get("name"), p["type"]["qualType"]) for p in self.src.funcs[name]["inner"] if p["kind"] == "ParmVarDecl"]

    def rtype(self, name):
        return self.src.funcs[name]["type"]["qualType"].split("(")[0].strip()

    def by_contract(self, name, vals):
        c = self.contracts[name]
        if (self.fn, name) in self.hooks:
            self.hooks[(self.fn, name)](self.S, self.locals())
        a = Args(dict((nm, self.conv(v, t)) for (i, nm, t), v in zip(self.params(name), vals)))
        for nm, f in c.pre(self.S, a):
            self.prove("%s: %s before the call of %s" % (self.fn, nm, name), f)
        S0 = self.S.copy()
        for k in c.modifies:
            self.S.mem[k] = self.fresh(k, self.sort(k))
        for g in c.ghosts:
            self.S.ghost[g] = self.fresh(g, self.S.ghost[g].sort())
        if c.modifies:
            nx = self.fresh("next", z3.IntSort())
            self.assume(nx >= S0.next)
            self.S.next = nx
        t = self.rtype(name)
        k = self.src.kind(t)
        r = None
        if k == "ptr":
            r = Ptr(*[self.fresh("r", z3.IntSort()) for _ in range(3)]) if t.replace(" ", "") == "char*" else Ptr(self.fresh("r", z3.IntSort()))
        elif k != "void":
            r = self.fresh("r", z3.RealSort() if k == "real" else z3.IntSort())
        if c.update:
            c.update(S0, self.S, a, r)
        for nm, f in c.post(S0, self.S, a, r):
            self.assume(f)
        return r

    def inline(self, name, vals):
        if len(self.frames) > 12:
            raise Unsupported("recursion without a contract")
        keep = (self.env, self.boxed, self.fn)
        self.frames.append(name)
        self.env, self.boxed = {}, {}
        self.fn = name
        r = None
        try:
            self.bind(name, vals)
            self.body(name)
        except Return as x:
            r = x.v
        finally:
            self.env, self.boxed, self.fn = keep
            self.frames.pop()
        return r

    def bind(self, name, vals):
        f = self.src.funcs[name]
        self.addr = self.taken(f, set())
        for (i, nm, t), v in zip(self.params(name), vals):
            self.declare(i, t, self.conv(v, t))

    def taken(self, n, out):
        if n.get("kind") == "UnaryOperator" and n["opcode"] == "&":
            x = n["inner"][0]
            while x["kind"] == "ParenExpr":
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr":
                out.add(x["referencedDecl"]["id"])
        for c in n.get("inner", []):
            self.taken(c, out)
        return out

    def declare(self, i, t, v):
        if i in self.addr:
            p = Ptr(self.new())
            self.boxed[i] = p
            if v is not None:
                self.store(("cell", t, p), v)
        else:
            self.env[i] = v

    # ---- statements
    def body(self, name):
        f = self.src.funcs[name]
        self.addr = self.taken(f, set())
        self.st([x for x in f["inner"] if x["kind"] == "CompoundStmt"][0])

    def st(self, n):
        k = n["kind"]
        if k == "CompoundStmt":
            for c in n.get("inner", []):
                self.st(c)
        elif k == "DeclStmt":
            for d in n["inner"]:
                if d["kind"] != "VarDecl":
                    continue
                t = d["type"]["qualType"]
                v = None
                if d.get("inner"):
                    v = self.ev(d["inner"][0])
                    if isinstance(v, Bytes):
                        v = self.typed(v, t[:-1].strip())
                    v = self.conv(v, t)
                self.declare(d["id"], t, v)
        elif k == "IfStmt":
            c = self.branch(truth(self.ev(n["inner"][0])))
            if c:
                self.st(n["inner"][1])
            elif len(n["inner"]) > 2:
                self.st(n["inner"][2])
        elif k == "ReturnStmt":
            v = self.ev(n["inner"][0]) if n.get("inner") else None
            if v is not None:
                v = self.conv(v, self.rtype(self.fn))
            raise Return(v)
        elif k == "BreakStmt":
            raise Break()
        elif k == "ContinueStmt":
            raise Continue()
        elif k == "NullStmt":
            pass
        elif k == "SwitchStmt":
            self.switch(n)
        elif k == "WhileStmt":
            self.loop(n, None, n["inner"][0], None, n["inner"][1])
        elif k == "ForStmt":
            init, _, cond, inc, body = n["inner"]
            self.loop(n, init, cond, inc, body)
        else:
            self.ev(n)

    def switch(self, n):
        v = toint(self.ev(n["inner"][0]))
        flat = []
        for s in n["inner"][1].get("inner", []):
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                flat.append(("case", self.ev(s["inner"][0]) if s["kind"] == "CaseStmt" else None))
                s = s["inner"][-1]
            flat.append(("st", s))
        cases = [(i, x[1]) for i, x in enumerate(flat) if x[0] == "case" and x[1] is not None]
        default = [i for i, x in enumerate(flat) if x[0] == "case" and x[1] is None]
        at = None
        for i, c in cases:
            if self.branch(v == c):
                at = i
                break
        if at is None:
            if not default:
                return
            at = default[0]
        try:
            for x in flat[at:]:
                if x[0] == "st":
                    self.st(x[1])
        except Break:
            pass

    def assigned(self, n, out):
        k = n.get("kind")
        x = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (k != "BinaryOperator" or n["opcode"] == "="):
            x = n["inner"][0]
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            x = n["inner"][0]
        if x is not None:
            while x["kind"] in ("ParenExpr",) or x["kind"] == "MemberExpr" and not x.get("isArrow"):
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr":
                out[x["referencedDecl"]["id"]] = x
        for c in n.get("inner", []):
            self.assigned(c, out)
        return out

    def locals(self):
        """the variables by name"""
        d = Args({})
        f = self.src.funcs[self.fn]

        def walk(n):
            if n.get("kind") in ("VarDecl", "ParmVarDecl"):
                i = n["id"]
                if i in self.boxed:
                    d.__dict__["at_" + n["name"]] = self.boxed[i]
                    t = n["type"]["qualType"]
                    try:
                        d.__dict__[n["name"]] = self.load(("cell", t, self.boxed[i]))
                    except Unsupported:
                        pass
                elif i in self.env:
                    d.__dict__[n["name"]] = self.env[i]
            for c in n.get("inner", []):
                walk(c)
        walk(f)
        return d

    def loop(self, n, init, cond, inc, body):
        if init and init.get("kind"):
            self.st(init)
        no = self.number(n)
        spec = self.loops.get((self.fn, no))
        if spec is None:
            raise Unsupported("loop %d of %s has no invariant" % (no, self.fn))
        S0 = self.S.copy()
        l0 = self.locals()
        if spec.enter:
            spec.enter(self.S, l0)
            S0 = self.S.copy()
        what = "%s: loop %d: " % (self.fn, no)
        for nm, f in spec.inv(S0, self.S, l0, l0):
            self.prove(what + nm + " on entry", f)
        # an arbitrary iteration
        for i, x in self.assigned(body, self.assigned(inc or {}, self.assigned(cond, {}))).items():
            if i in self.env and self.env[i] is not None or i in self.env:
                t = x["referencedDecl"]["type"]["qualType"]
                self.env[i] = self.havoc(t, x["referencedDecl"].get("name", "v"))
        for k in spec.modifies:
            self.S.mem[k] = self.fresh(k, self.sort(k))
        for g in spec.ghosts:
            self.S.ghost[g] = self.fresh(g, self.S.ghost[g].sort())
        if spec.alloc:
            nx = self.fresh("next", z3.IntSort())
            self.assume(nx >= S0.next)
            self.S.next = nx
        for nm, f in spec.inv(S0, self.S, l0, self.locals()):
            self.assume(f)
        H = self.S.copy()
        lh = self.locals()
        go = self.E.choose(2) == 0
        c = truth(self.ev(cond))
        if z3.is_true(z3.simplify(c)):
            if not go:
                raise PathEnd()
        elif self.branch(c) != go:
            raise PathEnd()
        if not go:
            if spec.leave:
                spec.leave(self.S, self.locals())
            return
        try:
            try:
                self.st(body)
            except Continue:
                pass
        except Break:
            return
        if inc and inc.get("kind"):
            self.ev(inc)
        for k in self.S.mem:
            if k not in spec.modifies and self.S.mem[k] is not H.mem.get(k, self.start.get(k)):
                raise Unsupported("loop %d of %s changes %s, which its invariant says nothing of" % (no, self.fn, k))
        if not spec.alloc and self.S.next is not H.next:
            raise Unsupported("loop %d of %s makes objects, which its invariant says nothing of" % (no, self.fn))
        if spec.step:
            spec.step(H, self.S, lh, self.locals())
        for nm, f in spec.inv(S0, self.S, l0, self.locals()):
            self.prove(what + nm + " is preserved", f)
        raise PathEnd()

    def number(self, loop):
        """of a loop in its function, in the order of the text"""
        ids = []

        def walk(n):
            if n.get("kind") in ("WhileStmt", "ForStmt"):
                ids.append(n["id"])
            for c in n.get("inner", []):
                walk(c)
        walk(self.src.funcs[self.fn])
        return ids.index(loop["id"])

    def havoc(self, t, nm="v"):
        k = self.src.kind(t)
        if k == "ptr":
            if t.replace(" ", "") == "char*":
                return Ptr(*[self.fresh(nm, z3.IntSort()) for _ in range(3)])
            if self.src.struct(t[:-1].strip() if t.endswith("*") else t) in self.src.elems:
                return Ptr(self.fresh(nm, z3.IntSort()), self.fresh(nm, z3.IntSort()))
            return Ptr(self.fresh(nm, z3.IntSort()))
        if k == "struct":
            return dict((f, self.havoc(ft, f)) for f, ft, i in self.src.names[self.src.struct(t)])
        return self.fresh(nm, z3.RealSort() if k == "real" else z3.IntSort())

    # ---- a function against its contract
    def verify(self, name, ghosts, bounds=True):
        """one path of the function; ghosts: {name: sort}"""
        if name not in self.src.funcs:
            raise Unsupported("no function %s" % name)
        c = self.contracts[name]
        self.E.functions.add("%s:%s" % (self.header, name))
        self.facts, self.nfresh, self.start = [], 0, {}
        self.bounds = bounds
        self.frames = [name]
        self.env, self.boxed, self.fn = {}, {}, name
        S = self.S = State()
        S.c = self
        S.next = z3.Int("next")
        self.assume(S.next > 0)
        for g, s in ghosts.items():
            S.ghost[g] = z3.Const("ghost_" + g, s)
        vals = [self.havoc(t, nm or "p") for i, nm, t in self.params(name)]
        a = Args(dict((nm, v) for (i, nm, t), v in zip(self.params(name), vals)))
        for nm, f in c.pre(S, a):
            self.assume(f)
        S0 = S.copy()
        self.bind(name, vals)
        if c.start:
            c.start(S, a)
        r = None
        try:
            self.body(name)
        except Return as x:
            r = x.v
        l = self.locals()
        if not c.modifies and not z3.eq(S.next, S0.next):
            raise Unsupported("%s makes objects, which its contract says nothing of" % name)
        if c.exit:
            c.exit(S0, S, a, r, l)
        for k in S.mem:
            if k not in c.modifies and S.mem[k] is not self.start.get(k):
                raise Unsupported("%s changes %s, which its contract says nothing of" % (name, k))
        for nm, f in c.post(S0, S, a, r):
            self.prove("%s: %s" % (name, nm), f)


class Args(object):
    def __init__(self, d):
        self.__dict__.update(d)


def quantified(t):
    if z3.is_quantifier(t):
        return True
    st, seen = [t], set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st += x.children()
    return False


def conditional(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_bool(x) or z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        st += x.children()
    return False


def truth(v):
    if isinstance(v, Ptr):
        return v.base != 0
    if z3.is_bool(v):
        return v
    return v != 0


def toint(v):
    return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v) else v


def binop(op, a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op in ("==", "!="):
            e = z3.And(a.base == b.base, a.off == b.off, a.fld == b.fld)
            return e if op == "==" else z3.Not(e)
        if op in ("+", "-") and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return Ptr(a.base, a.off + b if op == "+" else a.off - b, a.fld)
        raise Unsupported("pointer arithmetic")
    a, b = toint(a), toint(b)
    if z3.is_real(a) != z3.is_real(b):
        a, b = [z3.ToReal(x) if z3.is_int(x) else x for x in (a, b)]
    if op == "/" and z3.is_int(a):
        raise Unsupported("integer division")
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "<": lambda: a < b, "<=": lambda: a <= b,
            ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
