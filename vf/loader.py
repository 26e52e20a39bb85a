"""Loads the real source files of karta for symbolic execution.

.py files are parsed and executed as they are, with two mechanical changes:
every function notes that it was entered, and loops go through the loop rule
of vf.loops (which runs them natively whenever their iterations are concrete).

.pyx files are first stripped of their C declarations: `cdef`/`cpdef`
functions become plain functions, declared types become conversions at each
assignment (a struct is copied on assignment, as in C), C division and the
address-of operator keep their meaning.  Nothing else is dropped except
`nogil`, `not None`, `ctypedef` and `cdef extern` blocks.
"""
import ast, io, os, sys, types, tokenize, re, builtins, keyword
from . import sym
from .sym import Unsupported

INT_T = {"int", "unsigned int", "short", "long", "unsigned", "size_t", "np.int32_t", "np.uint16_t", "np.int64_t",
         "np.uint8_t", "DTYPE_int32_t", "Py_ssize_t", "unsigned char", "char", "long long", "np.int16_t"}
FLT_T = {"double", "float", "np.float64_t", "np.float32_t", "DTYPE_float64_t"}


# ---------------------------------------------------------------- .pyx text
def logical_lines(src):
    """(start, end, indent, tokens) of every logical line"""
    out, cur, indent = [], [], 0
    toks = tokenize.generate_tokens(io.StringIO(src).readline)
    ind = [""]
    for t in toks:
        if t.type == tokenize.INDENT:
            ind.append(t.string)
            continue
        if t.type == tokenize.DEDENT:
            ind.pop()
            continue
        if t.type in (tokenize.NL, tokenize.COMMENT):
            continue
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if cur:
                out.append((cur[0].start[0], cur[-1].end[0], ind[-1], cur))
            cur = []
            continue
        cur.append(t)
    return out


def text(toks):
    """the text of tokens, spaced as in the source, on one line"""
    r, prev = "", None
    for t in toks:
        if prev is not None and (t.start[0] != prev.end[0] or t.start[1] > prev.end[1]):
            r += " "
        r += t.string
        prev = t
    return r


def split_commas(toks):
    out, cur, d = [], [], 0
    for t in toks:
        if t.string in "([{":
            d += 1
        elif t.string in ")]}":
            d -= 1
        if t.string == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def split_eq(toks):
    d = 0
    for i, t in enumerate(toks):
        if t.string in "([{":
            d += 1
        elif t.string in ")]}":
            d -= 1
        elif t.string == "=" and d == 0:
            return toks[:i], toks[i + 1:]
    return toks, None


def declarator(toks):
    """type, name, pointer of a declarator `type name`"""
    d, last = 0, None
    for i, t in enumerate(toks):
        if t.string in "([{":
            d += 1
        elif t.string in ")]}":
            d -= 1
        elif t.type == tokenize.NAME and d == 0:
            last = i
    ty = [t for t in toks[:last]]
    ptr = any(t.string == "*" for t in ty)
    return "".join(text([t for t in ty if t.string not in ("*", "public", "readonly", "const")])).strip(), toks[last].string, ptr


class PyxInfo(object):
    def __init__(self):
        self.funcs = {}      # line -> dict(args, ret, locals)
        self.structs = {}


def amp(toks):
    """address-of operators become _vf_addr("name")"""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.string == "&" and (i == 0 or toks[i - 1].string in ("(", ",", "=")) and i + 1 < len(toks):
            n = toks[i + 1]
            out.append(n._replace(string='_vf_addr("%s")' % n.string))
            i += 2
            continue
        out.append(t)
        i += 1
    return out


def strip_pyx(src):
    info = PyxInfo()
    lines = src.split("\n")
    res = [None] * (len(lines) + 2)
    stack = []           # (indent, kind, info)
    skip = None
    for (a, b, ind, toks) in logical_lines(src):
        if skip is not None:
            if len(ind) > len(skip[0]):
                if skip[1] is not None:
                    ty, name, _ = declarator(toks)
                    skip[1].append((ty, name))
                continue
            skip = None
        while stack and len(stack[-1][0]) >= len(ind):
            stack.pop()
        w = [t.string for t in toks]
        line = None
        if "cimport" in w:
            if w[0] == "cimport":
                line = "pass" if w[1] == "numpy" else text(toks).replace("cimport", "import")
            else:
                line = text(toks).replace("cimport", "import")
        elif w[0] == "ctypedef":
            line = "pass"
            if w[-1] == ":":
                skip = (ind, None)
        elif w[0] in ("cdef", "cpdef") and w[1] == "extern":
            line = "pass"
            skip = (ind, None)
        elif w[0] == "cdef" and w[1] == "struct":
            fields = []
            info.structs[w[2]] = fields
            line = "%s = _vf_struct('%s')" % (w[2], w[2])
            skip = (ind, fields)
        elif w[0] == "cdef" and w[1] == "class":
            line = text(toks[1:])
            stack.append((ind, "class", None))
        elif w[0] in ("cdef", "cpdef") and w[-1] == ":" or w[0] == "def":
            p = next(i for i, t in enumerate(toks) if t.string == "(")
            d, q = 0, p
            for i in range(p, len(toks)):
                if toks[i].string == "(":
                    d += 1
                elif toks[i].string == ")":
                    d -= 1
                    if d == 0:
                        q = i
                        break
            name = toks[p - 1].string
            ret = text([t for t in toks[1:p - 1] if t.string not in ("inline", "*")]) if w[0] != "def" else ""
            args, types_ = [], {}
            for arg in split_commas(toks[p + 1:q]):
                left, right = split_eq(arg)
                left = [t for t in left if t.string not in ("not", "None")]
                if left[0].string in ("*", "**"):
                    args.append(text(left))
                    continue
                ty, nm, ptr = declarator(left)
                if ty:
                    types_[nm] = ty + ("*" if ptr else "")
                args.append(nm + ("=" + text(right) if right is not None else ""))
            f = dict(args=types_, ret=ret, locals={}, c=w[0] != "def")
            info.funcs[a] = f
            line = "def %s(%s):" % (name, ", ".join(args))
            stack.append((ind, "func", f))
            if toks[-1].string != ":":     # body on the same line
                raise Unsupported("one-line function")
        elif w[0] == "cdef":
            inclass = stack and stack[-1][1] == "class"
            if inclass:
                line = "pass"
            else:
                fn = next((s[2] for s in reversed(stack) if s[1] == "func"), None)
                parts = split_commas(toks[1:])
                left, right = split_eq(parts[0])
                ty, nm, ptr = declarator(left)
                decl = [(nm, right, ptr)]
                for p in parts[1:]:
                    left, right = split_eq(p)
                    _, nm, ptr = declarator(left)
                    decl.append((nm, right, ptr))
                stm = []
                for nm, right, ptr in decl:
                    if fn is not None and ty and ty != "object":
                        fn["locals"][nm] = ty + ("*" if ptr else "")
                    if right is not None:
                        stm.append("%s = %s" % (nm, text(amp(right))))
                    elif ty in info.structs or ty in KNOWN_STRUCTS:
                        stm.append("%s = _vf_new('%s')" % (nm, ty))
                line = "; ".join(stm) if stm else "pass"
        else:
            if "&" in w:
                line = text(amp(toks))
            elif w[0] == "class":
                stack.append((ind, "class", None))
        if line is not None:
            res[a] = ind + line
            for i in range(a + 1, b + 1):
                res[i] = ""
    blank = set()
    out = []
    lno = 0
    # the bodies of skipped blocks
    sk = None
    for i, l in enumerate(lines, 1):
        if res[i] is not None:
            out.append(res[i])
            continue
        out.append(l)
    txt = out
    # blank the fields of structs and extern blocks
    cur = None
    for i, l in enumerate(lines):
        s = l.strip()
        ind = len(l) - len(l.lstrip())
        if cur is not None:
            if s == "" or ind > cur:
                txt[i] = ""
                continue
            cur = None
        if re.match(r"cdef\s+(struct|extern)\b", s) or (s.startswith("ctypedef") and s.endswith(":")):
            cur = ind
    return "\n".join(txt) + "\n", info


MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "clear", "update", "add", "setdefault", "reverse", "popitem"}
KNOWN_STRUCTS = {"Vector2", "Vector3"}


# ---------------------------------------------------------------- AST rewriting
def stored_names(nodes):
    """names (re)bound or mutated in a loop body"""
    out, mutated = [], []

    def add(n, l=out):
        if n not in l:
            l.append(n)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            add(n.name)

        def visit_Lambda(self, n):
            pass

        def comp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_Attribute(self, n):
            if isinstance(n.ctx, ast.Store):
                r = n.value
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name):
                    add(r.id)
            self.generic_visit(n)

        def visit_Call(self, n):
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in (
                    "append", "extend", "insert", "pop", "remove", "sort", "clear", "update", "add"):
                add(f.value.id, mutated)
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                add(n.value.id, mutated)
            self.generic_visit(n)
    for n in nodes:
        V().visit(n)
    return out, mutated


class Rename(ast.NodeTransformer):
    def __init__(self, names, pre):
        self.names, self.pre = names, pre

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Name(self.pre + n.id, n.ctx), n)
        return n


class InlineGenerators(ast.NodeTransformer):
    """`for T in gen(args): BODY` becomes the body of the generator with each
    `yield v` replaced by `T = v; BODY`, which is what running the two
    interleaved does.  Only for generators that are plain statements around
    their yields, and bodies without break and continue."""
    def __init__(self, tree, mod):
        self.gens = [{}]
        self.qual = [mod]
        self.collect(tree)
        self.count = 0

    def collect(self, scope):
        for s in scope.body:
            if isinstance(s, ast.FunctionDef) and self.plain(s):
                self.gens[-1][s.name] = s

    def plain(self, f):
        own = list(walk_own(f))
        ys = [x for x in own if isinstance(x, ast.Yield)]
        if not ys or any(isinstance(x, (ast.YieldFrom, ast.Return, ast.Try, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global,
                                        ast.Nonlocal, ast.Delete, ast.comprehension)) for x in own):
            return False
        st = [x.value for x in own if isinstance(x, ast.Expr)]
        a = f.args
        return all(any(y is v for v in st) and y.value is not None for y in ys) and not (a.vararg or a.kwarg or a.kwonlyargs or a.defaults) \
            and not f.decorator_list

    def visit_ClassDef(self, n):
        self.gens.append({})
        self.collect(n)
        self.qual.append(n.name)
        self.generic_visit(n)
        self.qual.pop()
        self.gens.pop()
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if not isinstance(c, ast.Call) or c.keywords or n.orelse:
            return n
        if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(ast.Module(n.body, []))):
            return n
        f, g, args = c.func, None, list(c.args)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self":
            g = self.gens[-1].get(f.attr)
            args = [f.value] + args
        elif isinstance(f, ast.Name):
            g = self.gens[0].get(f.id)
        if g is None:
            return n
        import copy
        self.count += 1
        pre = "_g%d_" % self.count
        par = [a.arg for a in g.args.args]
        names = set(par) | set(x.id for x in walk_own(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        body = [Rename(names, pre).visit(copy.deepcopy(s)) for s in g.body]
        loop = n

        class Y(ast.NodeTransformer):
            def visit_Expr(s, x):
                if isinstance(x.value, ast.Yield):
                    a = ast.Assign([copy.deepcopy(loop.target)], x.value.value)
                    return [ast.copy_location(a, loop)] + copy.deepcopy(loop.body)
                return x
        out = []
        for s in body:
            r = Y().visit(s)
            out += r if isinstance(r, list) else [r]
        head = ast.Assign([ast.Tuple([ast.Name(pre + p, ast.Store()) for p in par], ast.Store())], ast.Tuple(args, ast.Load()))
        q = ".".join((self.qual if g in self.gens[-1].values() else self.qual[:1]) + [g.name])
        return fix([expr("_vf_enter(%r)" % q), head] + out, n)


class Xform(ast.NodeTransformer):
    def __init__(self, modname, info=None):
        self.mod = modname
        self.info = info
        self.stack = []
        self.inmerge = False
        self.fn = None
        self.nloop = 0
        self.qual = []
        self.cdiv = False

    # ---- functions
    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        old, self.fn = self.fn, None
        self.generic_visit(n)
        self.fn = old
        self.qual.pop()
        return n

    def visit_FunctionDef(self, n):
        f = None
        if self.info is not None:
            f = self.info.funcs.get(n.lineno)
        cdiv = False
        decs = []
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and isinstance(d.func.value, ast.Name) and d.func.value.id == "cython":
                if d.func.attr == "cdivision":
                    cdiv = d.args[0].value
                continue
            decs.append(d)
        n.decorator_list = decs
        old = (self.fn, self.cdiv)
        self.fn = f or dict(args={}, ret="", locals={}, c=False)
        self.fn["node"] = n
        self.fn["gen"] = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(n))
        self.cdiv = cdiv
        self.fn["own"] = set(a.arg for a in n.args.args + n.args.kwonlyargs) | set(
            x.id for x in walk_own(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        self.qual.append(n.name)
        types_ = dict(self.fn["args"])
        types_.update(self.fn["locals"])
        self.fn["types"] = types_
        body = []
        doc = None
        for s in n.body:
            r = self.visit(s)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        pre = [expr("_vf_enter(%r)" % (self.mod + "." + ".".join(self.qual)))]
        for a, ty in self.fn["args"].items():
            if coercible(ty):
                pre.append(stmt("%s = _vf_co(%r, %s)" % (a, ty, a)))
        if n.name == "__init__" and n.args.args:
            pre.append(expr("_vf_obj(%s)" % n.args.args[0].arg))
        n.body = pre + body
        # default values and decorators are visited in the outer context
        self.qual.pop()
        self.fn, self.cdiv = old
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    # ---- comprehensions
    def comp(self, n, kind):
        self.generic_visit(n)
        if self.fn is None or len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        elt = n.elt if kind != "dict" else ast.Tuple([n.key, n.value], ast.Load())

        def lam(body):
            t = g.target
            one = lambda a: ast.arg(a)
            if isinstance(t, ast.Name):
                return ast.Lambda(ast.arguments([], [one(t.id)], None, [], [], None, []), body)
            if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts):
                inner = ast.Lambda(ast.arguments([], [one(e.id) for e in t.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [one("_vf_t")], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(ast.Name("_vf_t", ast.Load()), ast.Load())], []))
            return None
        f = lam(elt)
        names = [e.id for e in getattr(g.target, "elts", [])]
        if f is None or len(set(names)) != len(names):
            return n
        r = ast.Call(ast.Name("_vf_comp", ast.Load()),
                     [ast.Constant(kind), g.iter, f, ast.List([lam(c) for c in g.ifs], ast.Load())], [])
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def visit_DictComp(self, n):
        return self.comp(n, "dict")

    def visit_List(self, n):
        self.generic_visit(n)
        if self.fn is not None and isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("_vf_obj", n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("_vf_obj", n), n) if self.fn is not None else n

    # ---- typed variables
    def post(self, names):
        out = []
        if self.fn is None:
            return out
        for nm in names:
            ty = self.fn["types"].get(nm)
            if ty and coercible(ty):
                out.append(stmt("%s = _vf_co(%r, %s)" % (nm, ty, nm)))
        return out

    def with_refs(self, n):
        """address-of arguments: boxes filled before and read after the call"""
        names = []
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "_vf_addr":
                names.append(x.args[0].value)
        if not names:
            return [n]

        class R(ast.NodeTransformer):
            def visit_Call(s, x):
                s.generic_visit(x)
                if isinstance(x.func, ast.Name) and x.func.id == "_vf_addr":
                    return ast.copy_location(ast.Name("_vf_ref_" + x.args[0].value, ast.Load()), x)
                return x
        n = R().visit(n)
        pre = [stmt("_vf_ref_%s = _vf_ref(locals(), %r)" % (m, m)) for m in names]
        post = [stmt("%s = _vf_ref_%s[0]" % (m, m)) for m in names]
        return pre + [n] + post

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "indices" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(call("_vf_indices", f.value, n.args[0]), n)
        if self.fn is not None and isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            f.value = ast.copy_location(call("_vf_mut", f.value, ast.Constant(f.attr)), f)
        return n

    def muts(self, targets):
        """stores into objects"""
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and self.fn is not None:
                    x.value = ast.copy_location(call("_vf_mut", x.value, ast.Constant("=")), x)

    def visit_Assign(self, n):
        self.generic_visit(n)
        self.muts(n.targets)
        names = []
        for t in n.targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.append(x.id)
        extra = self.post(names)
        if self.info is not None and not extra and isinstance(n.value, ast.Name):
            pass
        return self.with_refs(n) + extra

    def visit_AugAssign(self, n):
        if self.info is not None and isinstance(n.op, (ast.Div, ast.Mod, ast.FloorDiv)) and isinstance(n.target, ast.Name):
            load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n)
            n2 = ast.copy_location(ast.Assign([n.target], ast.copy_location(ast.BinOp(load, n.op, n.value), n)), n)
            return self.visit_Assign(n2)
        self.generic_visit(n)
        self.muts([n.target])
        names = [n.target.id] if isinstance(n.target, ast.Name) else []
        return self.with_refs(n) + self.post(names)

    def visit_Expr(self, n):
        self.generic_visit(n)
        return self.with_refs(n)

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.fn is not None and self.fn["ret"] and n.value is not None and coercible(self.fn["ret"]):
            n.value = ast.copy_location(call("_vf_co", ast.Constant(self.fn["ret"]), n.value), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(call("_vf_fmt", n.left, n.right), n)
        if self.info is not None:
            op = {ast.Div: "div", ast.Mod: "mod", ast.FloorDiv: "fdiv"}.get(type(n.op))
            if op:
                return ast.copy_location(call("_vf_" + op, n.left, n.right, ast.Constant(bool(self.cdiv))), n)
        return n

    # ---- loops
    def loop_common(self, n, extra_nodes=()):
        names, mutated = stored_names(list(n.body) + list(extra_nodes))
        names = names + [m for m in mutated if m not in names and m in self.fn.get("own", ())]
        lid = "%s.%s#%d" % (self.mod, ".".join(self.qual), self.nloop)
        self.nloop += 1
        return lid, [x for x in names if not x.startswith("_vf_")], mutated

    def visit_For(self, n):
        if self.fn is None:
            return self.generic_visit(n)
        lid, names, mutated = self.loop_common(n, [n.target])
        self.generic_visit(n)
        tn = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        n.body = self.post(tn) + n.body
        v = "_vf_lp%d" % self.nloop
        self.nloop += 1
        a = assign(v, call("_vf_for", ast.Constant(lid), n.iter, const_list(names), const_list(mutated), const_list(tn),
                           call("locals")))
        n.iter = ast.Name(v, ast.Load())
        t = ast.Try([n], [], [], [expr("%s.done()" % v)])
        return fix([a] + unpack(names, v) + [t], n)

    def visit_If(self, n):
        E = sym.E
        if self.fn is None or E is None or not E.merge_ifs or self.inmerge or not pure(n.test):
            return self.generic_visit(n)
        names = assigned(n.body)
        els = assigned(n.orelse)
        if names is None or els is None or not (names or els):
            if isinstance(n.test, ast.BoolOp):
                self.generic_visit(n)
                lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.test)
                n.test = call("_vf_test", lam)
                ast.fix_missing_locations(n)
                return n
            return self.generic_visit(n)
        names = names + [x for x in els if x not in names]
        self.inmerge = True
        self.generic_visit(n)
        self.inmerge = False
        k = self.nloop
        self.nloop += 1
        ret = lambda: ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in names], ast.Load()))
        args = ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
        fs = []
        for tag, body in (("t", n.body), ("f", n.orelse)):
            fs.append(ast.FunctionDef("_vf_if%d%s" % (k, tag), args, list(body) + [ret()], [], None))
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.test)
        a = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                       call("_vf_sel", lam, ast.Name("_vf_if%dt" % k, ast.Load()), ast.Name("_vf_if%df" % k, ast.Load()),
                            const_list(names), call("locals")))
        return fix(fs + [a], n)

    def visit_While(self, n):
        if self.fn is None:
            return self.generic_visit(n)
        lid, names, mutated = self.loop_common(n)
        self.generic_visit(n)
        v = "_vf_lp%d" % self.nloop
        self.nloop += 1
        if n.orelse:
            raise Unsupported("while-else")
        a = assign(v, call("_vf_while", ast.Constant(lid), const_list(names), const_list(mutated), call("locals")))
        brk = ast.If(ast.UnaryOp(ast.Not(), n.test), [expr("_vf_endcond()"), ast.Break()], [])
        body = [brk, expr("_vf_endcond()")] + n.body
        f = ast.For(ast.Name("_vf_i", ast.Store()), ast.Name(v, ast.Load()), body, [])
        t = ast.Try([f], [], [], [expr("%s.done()" % v)])
        return fix([a] + unpack(names, v) + [t], n)


PURE_CALLS = ("abs", "min", "max", "fabs", "fmin", "fmax", "isnan", "float", "int", "len", "sqrt")


def pure(e):
    """an expression without side effects"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else None
            if nm not in PURE_CALLS and not (nm or "").startswith("_vf_"):
                return False
        elif isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.SetComp,
                            ast.DictComp, ast.GeneratorExp, ast.List, ast.Dict, ast.Set)):
            return False
    return True


def assigned(body):
    """names assigned by statements that are only pure assignments, else None"""
    out = []
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.If) and pure(s.test):
            a, b = assigned(s.body), assigned(s.orelse)
            if a is None or b is None:
                return None
            out += a + b
            continue
        if isinstance(s, ast.Assign) and pure(s.value):
            for t in s.targets:
                ts = t.elts if isinstance(t, ast.Tuple) else [t]
                if not all(isinstance(x, ast.Name) for x in ts):
                    return None
                out += [x.id for x in ts]
            continue
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and pure(s.value):
            out.append(s.target.id)
            continue
        return None
    r = []
    for x in out:
        if x not in r:
            r.append(x)
    return r


def walk_own(fn):
    """nodes of a function, not of functions nested in it"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def unpack(names, v):
    if not names:
        return []
    return [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
                       ast.Attribute(ast.Name(v, ast.Load()), "vars", ast.Load()))]


def fix(nodes, at):
    for x in nodes:
        ast.copy_location(x, at)
        ast.fix_missing_locations(x)
    return nodes


def coercible(ty):
    return ty in INT_T or ty in FLT_T or ty in KNOWN_STRUCTS


def stmt(s):
    return ast.parse(s).body[0]


expr = stmt


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


def assign(name, value):
    return ast.Assign([ast.Name(name, ast.Store())], value)


def const_list(l):
    return ast.Tuple([ast.Constant(x) for x in l], ast.Load())


# ---------------------------------------------------------------- modules
IMPORTING = [0]


class StubObj(object):
    """something imported from a library outside the verifier's reach"""
    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return StubObj(self._name + "." + a)

    def __call__(self, *a, **k):
        if IMPORTING[0]:
            return StubObj(self._name + "()")
        raise Unsupported("call of %s" % self._name)

    def __iter__(self):
        raise Unsupported("iteration over %s" % self._name)

    def __getitem__(self, i):
        raise Unsupported("item of %s" % self._name)

    def __mro_entries__(self, bases):
        return (object,)


class StubModule(types.ModuleType):
    def __getattr__(self, a):
        if a.startswith("__") and a not in ("__version__",):
            raise AttributeError(a)
        return StubObj(self.__name__ + "." + a)


REAL = {"sys", "os", "warnings", "numbers", "collections", "itertools", "functools", "operator", "datetime", "re",
        "copy", "json", "abc", "enum", "__future__", "traceback", "types", "fractions", "heapq", "logging", "time",
        "contextlib", "string", "io", "struct", "random", "codecs", "tempfile", "threading", "bisect", "math_real"}


def bi_collections():
    import collections, collections.abc
    m = types.ModuleType("collections")
    for k in dir(collections.abc):
        if not k.startswith("_"):
            setattr(m, k, getattr(collections.abc, k))
    for k in dir(collections):
        if not k.startswith("__"):
            setattr(m, k, getattr(collections, k))
    return m


def bi_itertools():
    from . import bi
    return bi.itertools_module()


class Loader(object):
    def __init__(self, root, engine):
        self.root = root
        self.engine = engine
        self.modules = {}
        from . import npshim, mathshim, seq, loops
        self.npshim, self.seq, self.loops = npshim, seq, loops
        self.fixed = {
            "numpy": npshim.module(), "itertools": bi_itertools(), "collections": bi_collections(), "math": mathshim.module(), "libc.math": mathshim.cmodule(),
            "cython": types.ModuleType("cython"), "cpython": types.SimpleNamespace(bool=bool),
            "coordstring": types.SimpleNamespace(CoordString=seq.CoordString),
            "karta.vector.rtree": StubModule("karta.vector.rtree"), "karta.vector.quadtree": StubModule("karta.vector.quadtree"),
            "coordstring.coordstring": types.SimpleNamespace(CoordString=seq.CoordString),
        }
        self.builtins = self.make_builtins()

    def path(self, name):
        p = os.path.join(self.root, *name.split("."))
        for c in (p + ".pyx", p + ".py", os.path.join(p, "__init__.py")):
            if os.path.exists(c):
                return c
        return None

    def package(self, name):
        """karta packages without running their __init__"""
        m = self.modules.get(name)
        if m is None:
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(self.root, *name.split("."))]
            loader = self

            class P(types.ModuleType):
                def __getattr__(s, a):
                    if a.startswith("__"):
                        raise AttributeError(a)
                    full = name + "." + a
                    if loader.path(full):
                        return loader.load(full)
                    return StubObj(full)
            m.__class__ = P
            self.modules[name] = m
        return m

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.fixed:
            return self.fixed[name]
        p = self.path(name)
        if p is None:
            raise ImportError(name)
        if p.endswith("__init__.py"):
            return self.package(name)
        src = open(p).read()
        info = None
        if p.endswith(".pyx"):
            src, info = strip_pyx(src)
        tree = ast.parse(src, p)
        if self.engine.inline_gens:
            tree = ast.fix_missing_locations(InlineGenerators(tree, name).visit(tree))
        tree = ast.fix_missing_locations(Xform(name, info).visit(tree))
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = p
        m.__package__ = name.rpartition(".")[0]
        self.modules[name] = m
        if info is not None:
            def struct(n, fields=info.structs):
                return self.seq.struct(n, fields[n])
            m.__dict__["_vf_struct"] = struct
            m.__dict__["_vf_new"] = lambda n, m=m: m.__dict__[n]()
        IMPORTING[0] += 1
        try:
            exec(compile(tree, p, "exec"), m.__dict__)
        finally:
            IMPORTING[0] -= 1
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        pk = (globals or {}).get("__package__") or ""
        if level:
            base = pk.split(".")
            base = base[:len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
            # old style implicit relative import in .pyx
            if pk and self.path(pk + "." + name) and name not in self.fixed:
                full = pk + "." + name
        m = self.resolve(full)
        if fromlist:
            for f in fromlist:
                if isinstance(m, types.ModuleType) and not hasattr(m, f) and self.path(full + "." + f):
                    setattr(m, f, self.load(full + "." + f))
            return m
        if level or full != name:
            return m
        return self.resolve(full.split(".")[0]) if "." in full else m

    def resolve(self, full):
        if full in self.fixed:
            return self.fixed[full]
        if full.split(".")[0] == "karta":
            return self.load(full)
        if full.split(".")[0] in REAL:
            return __import__(full, fromlist=["x"])
        if full == "numpy.linalg":
            return StubModule(full)
        return StubModule(full)

    def make_builtins(self):
        from . import bi
        d = dict(vars(builtins))
        d.update(bi.table())
        d["__import__"] = self.imp
        eng = self.engine
        lp = self.loops

        def enter(q):
            if not IMPORTING[0]:
                sym.E.functions.add(q)
        d["_vf_enter"] = enter
        d["_vf_co"] = self.seq.co
        d["_vf_ref"] = self.seq.ref
        d["_vf_div"] = bi.pdiv
        d["_vf_mod"] = bi.pmod
        d["_vf_fdiv"] = bi.pfdiv
        d["_vf_for"] = lp.for_
        d["_vf_while"] = lp.while_
        d["_vf_endcond"] = lp.endcond
        d["_vf_mut"] = lp.mut
        d["_vf_obj"] = lp.obj
        d["_vf_fmt"] = fmt
        from . import npshim as _np_
        d["_vf_indices"] = _np_.slice_indices
        d["_vf_test"] = test_
        d["_vf_sel"] = sel
        from . import sseq
        d["_vf_comp"] = sseq.comp
        return d


def fmt(s, v):
    """string formatting; symbolic numbers are left as in the format"""
    try:
        return s % v
    except sym.Unsupported:
        return s


def test_(f):
    """a condition without side effects: its short-circuit branches are merged"""
    E = sym.E
    if E.local is not None:
        return f()
    n = E.merge(lambda: True if f() else False)
    return n


def sel(test, a, b, names, loc):
    """if test: a else: b, for branches that only assign names"""
    from .seq import Poison
    E = sym.E
    vals = [loc[x] if x in loc else Poison(x) for x in names]
    run = lambda: a(*vals) if test() else b(*vals)
    if E.local is not None:
        return run()
    c = E.merge(lambda: True if test() else False)
    if isinstance(c, bool):
        return (a if c else b)(*vals)
    try:
        return E.merge(lambda: a(*vals) if c else b(*vals))
    except (Unsupported, ZeroDivisionError, ValueError):
        E.local = None
        return (a if c else b)(*vals)
