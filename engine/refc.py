"""Reference programs: a small deterministic language with Python syntax, compiled to a control-flow graph.

A reference program describes what the grammar prescribes for one nonterminal: which token classes are consumed, which
nonterminals are parsed (under which context flags), and which tree is built.  It is never run on concrete input; the
product construction (product.py) walks it in lock step with the compiled code's control flow.
"""
import ast
import builtins


class Func:
    __slots__ = ("name", "params", "code", "is_nt", "opts", "live", "lines")


class Compiler:
    def __init__(self, funcs):
        self.funcs = funcs       # name -> (ast.FunctionDef, is_nt, opts)
        self.prims = None

    def compile(self, name, node, is_nt, opts, consts):
        self.code = []
        self.n = 0
        self.loops = []
        self.consts = consts
        f = Func()
        f.name = name
        f.params = [a.arg for a in node.args.args]
        self.locals = set(f.params)
        for st in ast.walk(node):
            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
                self.locals.add(st.id)
        self.block(node.body)
        self.emit("ret", self.const(("T", ())))
        f.code = self.code
        f.is_nt = is_nt
        f.opts = opts
        f.live = liveness(f.code)
        return f

    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code) - 1

    def temp(self):
        self.n += 1
        return "%" + str(self.n)

    def const(self, v):
        return ("c", v)

    # ---------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.expr(s.value)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value)
            t = s.targets[0]
            self.assign(t, v)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value)
            t = self.temp()
            self.emit("prim", t, "add", (self.name(s.target.id), v), {})
            self.emit("mov", s.target.id, ("v", t))
        elif isinstance(s, ast.If):
            self.cond_stmt(s)
        elif isinstance(s, ast.While):
            top = len(self.code)
            lt, lf = [], []
            self.cond(s.test, lt, lf)
            self.patch(lt, len(self.code))
            brk = []
            self.loops.append((top, brk))
            self.block(s.body)
            self.loops.pop()
            self.emit("jmp", top)
            self.patch(lf, len(self.code))
            for b in brk:
                self.code[b][1] = len(self.code)
        elif isinstance(s, ast.For):
            it = self.temp()
            v = self.expr(s.iter)
            self.emit("prim", it, "iter", (v,), {})
            top = len(self.code)
            nx = self.temp()
            self.emit("prim", nx, "iternext", (("v", it),), {})
            c = self.temp()
            self.emit("prim", c, "itersome", (("v", nx),), {})
            br = self.emit("br", ("v", c), None, None)
            self.code[br][2] = len(self.code)
            x = self.temp()
            self.emit("prim", x, "iteritem", (("v", nx),), {})
            self.emit("prim", it, "iterrest", (("v", nx),), {})
            self.assign(s.target, ("v", x))
            brk = []
            self.loops.append((top, brk))
            self.block(s.body)
            self.loops.pop()
            self.emit("jmp", top)
            self.code[br][3] = len(self.code)
            for b in brk:
                self.code[b][1] = len(self.code)
        elif isinstance(s, ast.Break):
            self.loops[-1][1].append(self.emit("jmp", None))
        elif isinstance(s, ast.Continue):
            self.emit("jmp", self.loops[-1][0])
        elif isinstance(s, ast.Return):
            v = self.expr(s.value) if s.value is not None else self.const(("T", ()))
            self.emit("ret", v)
        elif isinstance(s, ast.Pass):
            pass
        else:
            raise SyntaxError("statement %s line %d" % (type(s).__name__, s.lineno))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.emit("mov", t.id, v)
        elif isinstance(t, ast.Tuple):
            for i, e in enumerate(t.elts):
                x = self.temp()
                self.emit("prim", x, "proj", (v, self.const(i)), {})
                self.assign(e, ("v", x))
        else:
            raise SyntaxError("target")

    def cond_stmt(self, s):
        lt, lf = [], []
        self.cond(s.test, lt, lf)
        self.patch(lt, len(self.code))
        self.block(s.body)
        if s.orelse:
            j = self.emit("jmp", None)
            self.patch(lf, len(self.code))
            self.block(s.orelse)
            self.code[j][1] = len(self.code)
        else:
            self.patch(lf, len(self.code))

    def patch(self, lst, target):
        for i, slot in lst:
            self.code[i][slot] = target

    def cond(self, e, lt, lf):
        """compile a condition; jump slots appended to lt / lf"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                for x in e.values[:-1]:
                    t = []
                    self.cond(x, t, lf)
                    self.patch(t, len(self.code))
                self.cond(e.values[-1], lt, lf)
            else:
                for x in e.values[:-1]:
                    f = []
                    self.cond(x, lt, f)
                    self.patch(f, len(self.code))
                self.cond(e.values[-1], lt, lf)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cond(e.operand, lf, lt)
        if isinstance(e, ast.Constant):
            i = self.emit("jmp", None)
            (lt if e.value else lf).append((i, 1))
            return
        v = self.expr(e)
        i = self.emit("br", v, None, None)
        lt.append((i, 2))
        lf.append((i, 3))

    # ---------------------------------------------------------------- expressions
    def name(self, n):
        if n in self.locals:
            return ("v", n)
        if n in self.consts:
            return self.const(self.consts[n])
        raise SyntaxError("unknown name %s" % n)

    def expr(self, e):
        if isinstance(e, ast.Constant):
            if e.value is None:
                return self.const(("A", "std::option::Option", 0, ()))
            if isinstance(e.value, bool):
                return self.const(int(e.value))
            return self.const(e.value)
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.Tuple):
            t = self.temp()
            self.emit("prim", t, "tuple", tuple(self.expr(x) for x in e.elts), {})
            return ("v", t)
        if isinstance(e, ast.List):
            t = self.temp()
            self.emit("prim", t, "list", tuple(self.expr(x) for x in e.elts), {})
            return ("v", t)
        if isinstance(e, (ast.BoolOp,)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            t = self.temp()
            lt, lf = [], []
            self.cond(e, lt, lf)
            self.patch(lt, len(self.code))
            self.emit("mov", t, self.const(1))
            j = self.emit("jmp", None)
            self.patch(lf, len(self.code))
            self.emit("mov", t, self.const(0))
            self.code[j][1] = len(self.code)
            return ("v", t)
        if isinstance(e, ast.IfExp):
            t = self.temp()
            lt, lf = [], []
            self.cond(e.test, lt, lf)
            self.patch(lt, len(self.code))
            self.emit("mov", t, self.expr(e.body))
            j = self.emit("jmp", None)
            self.patch(lf, len(self.code))
            self.emit("mov", t, self.expr(e.orelse))
            self.code[j][1] = len(self.code)
            return ("v", t)
        if isinstance(e, ast.Compare):
            a = self.expr(e.left)
            b = self.expr(e.comparators[0])
            op = type(e.ops[0]).__name__
            t = self.temp()
            self.emit("prim", t, "cmp" + op, (a, b), {})
            return ("v", t)
        if isinstance(e, ast.BinOp):
            a = self.expr(e.left)
            b = self.expr(e.right)
            t = self.temp()
            self.emit("prim", t, {"Add": "add", "Sub": "sub", "Mult": "mul"}[type(e.op).__name__], (a, b), {})
            return ("v", t)
        if isinstance(e, ast.Attribute):
            # field of a value:  x.name
            v = self.expr(e.value)
            t = self.temp()
            self.emit("prim", t, "field", (v, self.const(e.attr)), {})
            return ("v", t)
        if isinstance(e, ast.Subscript):
            v = self.expr(e.value)
            i = self.expr(e.slice)
            t = self.temp()
            self.emit("prim", t, "item", (v, i), {})
            return ("v", t)
        if isinstance(e, ast.Call):
            kw = {}
            t = self.temp()
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) \
                    and e.func.value.id not in self.locals:
                # Type.Variant(field=..)
                args = tuple(self.expr(x) for x in e.args)
                for k in e.keywords:
                    kw[k.arg] = self.expr(k.value)
                self.emit("prim", t, "make:%s.%s" % (e.func.value.id, e.func.attr), args, kw)
                return ("v", t)
            if not isinstance(e.func, ast.Name):
                raise SyntaxError("call line %d" % e.lineno)
            n = e.func.id
            if n in self.locals:
                raise SyntaxError("call of local")
            args = tuple(self.expr(x) for x in e.args)
            for k in e.keywords:
                kw[k.arg] = self.expr(k.value)
            if n in self.funcs:
                if self.funcs[n][1]:
                    self.emit("nt", t, n, args, kw)
                else:
                    self.emit("call", t, n, args, kw)
            elif n == "fail":
                self.emit("fail", args[0] if args else None, kw)
            elif n == "take":
                self.emit("take", t, args[0] if args else self.const("Div"))
            else:
                self.emit("prim", t, n, args, kw)
            return ("v", t)
        raise SyntaxError("expression %s line %d" % (type(e).__name__, e.lineno))


def uses(ins):
    out = set()

    def o(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "v":
            out.add(x[1])
        elif isinstance(x, (tuple, list)) and not (len(x) == 2 and x[0] == "c"):
            for y in x:
                o(y)
        elif isinstance(x, dict):
            for y in x.values():
                o(y)
    k = ins[0]
    if k == "prim":
        o(ins[3])
        o(ins[4])
    elif k in ("nt", "call"):
        o(ins[3])
        o(ins[4])
    elif k == "mov":
        o(ins[2])
    elif k == "br":
        o(ins[1])
    elif k == "ret":
        o(ins[1])
    elif k == "take":
        o(ins[2])
    elif k == "fail":
        o(ins[1])
        o(ins[2])
    return out


def liveness(code):
    n = len(code)
    live = [frozenset()] * (n + 1)
    U = [uses(i) for i in code]
    D = [i[1] if i[0] in ("prim", "nt", "call", "mov", "take") else None for i in code]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            k = code[i][0]
            if k == "jmp":
                o = live[code[i][1]]
            elif k == "br":
                o = live[code[i][2]] | live[code[i][3]]
            elif k in ("ret", "fail"):
                o = frozenset()
            else:
                o = live[i + 1]
            x = frozenset(U[i] | (set(o) - {D[i]}))
            if x != live[i]:
                live[i] = x
                ch = True
    return live


def load(paths, consts=None):
    """compile the reference files; functions decorated with @nt(...) are nonterminals"""
    funcs = {}
    consts = dict(consts or {})
    for p in paths:
        tree = ast.parse(open(p).read(), p)
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                is_nt = False
                opts = {}
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id == "nt":
                        is_nt = True
                    elif isinstance(d, ast.Call) and d.func.id == "nt":
                        is_nt = True
                        for k in d.keywords:
                            opts[k.arg] = ast.literal_eval(k.value)
                if n.name in funcs:
                    raise SyntaxError("duplicate %s" % n.name)
                funcs[n.name] = (n, is_nt, opts)
            elif isinstance(n, ast.Assign):
                consts[n.targets[0].id] = eval(compile(ast.Expression(n.value), p, "eval"), {}, dict(consts))
    out = {}
    c = Compiler(funcs)
    for name, (node, is_nt, opts) in funcs.items():
        out[name] = c.compile(name, node, is_nt, opts, consts)
    return out
