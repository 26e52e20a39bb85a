"""A decision step for goals that mix nonlinear real arithmetic with integers,
floors, conditionals and uninterpreted functions.

The goal is rewritten, under the path condition, to one over real constants
only: conditionals whose condition the path condition decides are resolved,
integer terms and function applications it proves equal are identified, and
what remains of them becomes constants (with the defining inequalities of a
floor).  Everything dropped only weakens what is known, so 'unsat' of the
negated result is a proof; a model of it is not a counterexample."""
import z3

LIM = 400


class Red(object):
    def __init__(self, pc, budget=60):
        self.pc = pc
        self.s = z3.Solver()
        self.s.set("timeout", LIM)
        self.s.add(*[p for p in pc if linear(p)])
        self.cache = {}
        self.ints = []            # (term, real constant)
        self.apps = {}            # decl -> [(args, constant)]
        self.facts = []
        self.n = 0
        self.left = budget
        self.keep = []

    def fresh(self, sort=None):
        self.n += 1
        return z3.Const("red!%d" % self.n, sort or z3.RealSort())

    def holds(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t) or self.left <= 0:
            return False
        self.left -= 1
        return self.s.check(z3.Not(t)) == z3.unsat

    def int_(self, t):
        """an integer term as a real"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                return z3.Sum(*[self.int_(c) for c in t.children()])
            if k == z3.Z3_OP_MUL:
                return z3.Product(*[self.int_(c) for c in t.children()])
            if k == z3.Z3_OP_SUB:
                a = [self.int_(c) for c in t.children()]
                return a[0] - z3.Sum(*a[1:])
            if k == z3.Z3_OP_UMINUS:
                return -self.int_(t.arg(0))
            if k == z3.Z3_OP_ITE:
                c = t.arg(0)
                if self.holds(c):
                    return self.int_(t.arg(1))
                if self.holds(z3.Not(c)):
                    return self.int_(t.arg(2))
                return z3.If(self.bool_(c), self.int_(t.arg(1)), self.int_(t.arg(2)))
        for u, r in self.ints:
            if z3.eq(u, t):
                return r
        if linear(t):
            if z3.is_app_of(t, z3.Z3_OP_TO_INT) and self.holds(z3.ToReal(t) == t.arg(0)):
                r = self.real(t.arg(0))
                self.ints.append((t, r))
                return r
            for u, r in self.ints:
                if linear(u):
                    for d in (0, 1, -1):
                        if self.holds(t == u + d):
                            r = r + d if d else r
                            self.ints.append((t, r))
                            return r
        if z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.num_args():
            r = self.app(t)
        else:
            r = self.fresh()
        self.ints.append((t, r))
        if z3.is_app_of(t, z3.Z3_OP_TO_INT):
            x = self.real(t.arg(0))
            self.facts += [r <= x, x < r + 1]
        return r

    def app(self, t):
        args = [self.int_(a) if z3.is_int(a) else self.real(a) for a in t.children()]
        l = self.apps.setdefault(t.decl().name(), [])
        for a2, c, orig in l:
            if all(z3.eq(z3.simplify(x), z3.simplify(y)) for x, y in zip(args, a2)):
                return c
        for a2, c, orig in l:
            if all(z3.eq(z3.simplify(x), z3.simplify(y)) or (linear(p) and linear(q) and self.holds(p == q))
                   for x, y, p, q in zip(args, a2, t.children(), orig.children())):
                l.append((args, c, t))
                return c
        c = self.fresh() if t.sort() != z3.BoolSort() else self.fresh(z3.BoolSort())
        l.append((args, c, t))
        return c

    def real(self, t):
        if t.get_id() in self.cache:
            return self.cache[t.get_id()]
        self.keep.append(t)
        r = self.real_(t)
        self.cache[t.get_id()] = r
        return r

    def real_(self, t):
        if z3.is_rational_value(t):
            return t
        if z3.is_int(t):
            return self.int_(t)
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return self.int_(t.arg(0))
        if k == z3.Z3_OP_ITE:
            c = t.arg(0)
            if self.holds(c):
                return self.real(t.arg(1))
            if self.holds(z3.Not(c)):
                return self.real(t.arg(2))
            return z3.If(self.bool_(c), self.real(t.arg(1)), self.real(t.arg(2)))
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.app(t) if t.num_args() else t
        ch = [self.real(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        if k == z3.Z3_OP_MUL:
            return z3.Product(*ch)
        if k == z3.Z3_OP_SUB:
            return ch[0] - z3.Sum(*ch[1:])
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            return ch[0] / ch[1]
        if k == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        return self.fresh()

    def bool_(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch = [self.bool_(c) for c in t.children()]
            return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.bool_(t.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bool_(t.arg(0)), self.bool_(t.arg(1)))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(t.arg(0)):
                return self.bool_(t.arg(0)) == self.bool_(t.arg(1))
            a, b = (self.int_(c) if z3.is_int(c) else self.real(c) for c in t.children()[:2])
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b,
                    z3.Z3_OP_EQ: a == b, z3.Z3_OP_DISTINCT: a != b}[k]
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.app(t) if t.num_args() else t
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bool_(t.arg(0)), self.bool_(t.arg(1)), self.bool_(t.arg(2)))
        return self.fresh(z3.BoolSort())


LIN = {}


def linear(t):
    k = t.get_id()
    if k in LIN and z3.eq(LIN[k][0], t):
        return LIN[k][1]
    r = linear_(t)
    LIN[k] = (t, r)
    return r


def linear_(t):
    if z3.is_quantifier(t):
        return False
    if not z3.is_app(t):
        return True
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        if sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in t.children()) > 1:
            return False
    if k == z3.Z3_OP_POWER:
        return False
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(t.arg(1)) or z3.is_int_value(t.arg(1))):
        return False
    return all(linear(c) for c in t.children())


def prove(pc, goal, timeout):
    """is goal implied by pc (True), or unknown (False)"""
    goal = z3.simplify(goal)
    if z3.is_app_of(goal, z3.Z3_OP_IMPLIES):
        return prove(list(pc) + [goal.arg(0)], goal.arg(1), timeout)
    if z3.is_and(goal):
        return all(prove(pc, g, timeout) for g in goal.children())
    if z3.is_or(goal) and len(goal.children()) < 8:
        # one disjunct under the negation of the others
        ch = sorted(goal.children(), key=lambda c: linear(c))
        return prove(list(pc) + [z3.simplify(z3.Not(c)) for c in ch[1:]], ch[0], timeout)
    r = Red(pc)
    if r.s.check() == z3.unsat:
        return True
    g = r.bool_(goal)
    facts = [r.bool_(p) for p in pc if linear(p) or size(p) < 60]
    g = z3.simplify(g, som=True)
    if z3.is_true(g):
        return True
    for mk in (lambda: z3.SolverFor("QF_NRA"), z3.Solver):
        s = mk()
        s.set("timeout", int(timeout))
        try:
            s.add(*facts)
            s.add(*r.facts)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                return True
        except z3.Z3Exception:
            pass
    return False


def size(t, lim=200):
    n, st = 0, [t]
    while st and n < lim:
        x = st.pop()
        n += 1
        st += x.children()
    return n


OPQ = {}
MON = {}


def opaque(t):
    """t with every product of unknowns replaced by a constant of its own (the same
    for the same product): what holds for all values of these constants holds for t;
    None when t has a quantifier"""
    k = t.get_id()
    if k in OPQ and z3.eq(OPQ[k][0], t):
        return OPQ[k][1]
    if linear(t):
        r = t
    elif size(t, 4000) >= 4000:
        r = None
    else:
        try:
            r = opq(z3.simplify(t, som=True), {})
        except z3.Z3Exception:
            r = None
    OPQ[k] = (t, r)
    return r


def opq(t, seen):
    if z3.is_quantifier(t):
        raise z3.Z3Exception("quantifier")
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    k = t.get_id()
    if k in seen:
        return seen[k]
    ch = [opq(c, seen) for c in t.children()]
    d = t.decl().kind()
    val = lambda c: z3.is_rational_value(c) or z3.is_int_value(c)
    r = None
    if d == z3.Z3_OP_MUL:
        cs = [c for c in ch if val(c)]
        vs = [c for c in ch if not val(c)]
        if len(vs) > 1:
            r = mono("*", sorted(vs, key=lambda c: c.get_id()), t.sort())
            for c in cs:
                r = c * r
    elif d == z3.Z3_OP_POWER and not val(ch[0]):
        if z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 1 < ch[1].numerator_as_long() < 8:
            r = mono("*", [ch[0]] * ch[1].numerator_as_long(), t.sort())
        else:
            r = mono("^", ch, t.sort())
    elif d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not val(ch[1]):
        r = mono(str(d), ch, t.sort())
    if r is None:
        r = t.decl()(*ch) if d not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) else {
            z3.Z3_OP_AND: lambda l: z3.And(*l), z3.Z3_OP_OR: lambda l: z3.Or(*l), z3.Z3_OP_ADD: lambda l: z3.Sum(*l),
            z3.Z3_OP_MUL: lambda l: z3.Product(*l), z3.Z3_OP_DISTINCT: lambda l: z3.Distinct(*l)}[d](ch)
    seen[k] = r
    return r


def mono(op, args, sort):
    key = (op,) + tuple(a.get_id() for a in args)
    if key not in MON:
        MON[key] = (z3.Const("mono!%d" % len(MON), sort), args)     # the arguments stay alive
    return MON[key][0]
