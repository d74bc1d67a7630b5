"""Path-sensitive abstract interpreter over promoted MIR.

Values (immutable):
  int / str                      concrete scalar (bool, char code, integer) / concrete string (String and &str alike)
  None                           uninitialised or moved out
  ('A', adt, variant, fields)    struct or enum value
  ('T', fields)                  tuple (unit = ('T', ()))
  ('R', root, path)              reference; root = ('L', depth, local) | ('G', name) | ('V', value)
  ('V', prefix, items)           Vec / array / slice; prefix None or a term standing for unknown leading part
  ('S', prefix, items)           String with unknown parts
  ('C', closure path, captures)  closure
  ('F', fnkey)                   function item
  ('I', kind, ...)               iterator
  ('O', name)                    abstract object (scanner / reader)
  terms: ('sym', n) ('fld', t, variant, i) ('discr', t, adt) ('bin', op, a, b) ('app', f, args) ('head', V) ('tail', V)
         ('empty', V) ('len', V) ('tok..', id) ('ch', id) ('sum', ((t, coef)..), k)
Facts: term -> ('in', frozenset) | ('out', frozenset); for class variables (tokens, characters): bit mask of classes.
"""
import sys
from .mir import Const, callkey

sys.setrecursionlimit(20000)
import os
DEBUG = bool(os.environ.get("DEBUG"))
UNIT = ("T", ())
TERMTAGS = frozenset(["sym", "fld", "discr", "bin", "app", "head", "tail", "empty", "len", "tokty", "tokval", "tokstr",
                      "tokpunc", "toknum", "tokattr", "ch", "sum", "nl", "flag", "un", "tab", "last", "init"])


class Undecided(Exception):
    pass


def is_term(v):
    return type(v) is tuple and len(v) > 0 and v[0] in TERMTAGS


class Frame:
    __slots__ = ("body", "bb", "si", "loc", "dest", "target", "native", "data", "visits")

    def __init__(self, body, dest, target):
        self.body = body
        self.bb = 0
        self.si = 0
        self.loc = {}
        self.dest = dest
        self.target = target
        self.native = None
        self.data = None
        self.visits = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.body = self.body
        f.bb = self.bb
        f.si = self.si
        f.loc = self.loc.copy()
        f.dest = self.dest
        f.target = self.target
        f.native = self.native
        f.data = self.data
        f.visits = self.visits.copy() if self.visits else None
        return f


class State:
    __slots__ = ("frames", "heap", "facts", "toks", "nid", "log", "steps", "extra", "imprecise", "goals")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.toks = []        # ids of input items from the cursor on
        self.nid = 0
        self.log = ()
        self.steps = 0
        self.extra = {}
        self.imprecise = False
        self.goals = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.toks = list(self.toks)
        s.nid = self.nid
        s.log = self.log
        s.steps = self.steps
        s.extra = dict(self.extra)
        s.imprecise = self.imprecise
        s.goals = dict(self.goals)
        return s

    def fresh(self, tag="sym"):
        self.nid += 1
        return (tag, self.nid)

    def note(self, *x):
        self.log = (self.log, x)


def loglist(log):
    out = []
    while log:
        log, x = log
        out.append(x)
    out.reverse()
    return out


class Panic(Exception):
    def __init__(self, what):
        self.what = what


class Interp:
    MAXSTEPS = 60000

    def __init__(self, prog, domain, models, nts=()):
        self.P = prog
        self.dom = domain            # class domain: mask handling for input items
        self.models = models
        self.nts = nts               # function keys cut as summaries
        self.objmodels = {}          # function keys handled by the domain (scanner.next ...)
        self.ofield = None           # fields of the opaque objects
        self.visited_fns = set()
        self.visited_calls = set()
        self.panic_sites = {}        # (fn, span, kind) -> count of evaluations
        self.undecided = []
        self._scalar_ret = {}
        self.unmodelled = {}
        self.events_stop = True
        self.iter_events = False
        self.digits = domain if hasattr(domain, "arith") else None     # digit-by-digit arithmetic

    # ------------------------------------------------------------------ memory
    def load_root(self, st, root):
        k = root[0]
        if k == "L":
            return st.frames[root[1]].loc.get(root[2])
        if k == "G":
            return st.heap[root[1]]
        if k == "V":
            return root[1]
        raise Undecided("root %r" % (root,))

    def store_root(self, st, root, v):
        k = root[0]
        if k == "L":
            st.frames[root[1]].loc[root[2]] = v
        elif k == "G":
            st.heap[root[1]] = v
        # writes to temporaries are lost on purpose

    def proj(self, st, v, e):
        if v is None:
            return None
        k = e[0]
        if k == "f":
            _, var, i = e
            t = v[0] if type(v) is tuple else None
            if t == "A":
                f = v[3]
                if v[2] != var and self.P.adts.get(v[1], {}).get("enum"):
                    raise Undecided("field of other variant %r" % (v[1],))
                return f[i] if i < len(f) else None
            if t == "T":
                return v[1][i] if i < len(v[1]) else None
            if t == "C":
                return v[2][i]
            if t == "O":
                return self.ofield(st, v, i) if self.ofield is not None else ("O", v[1] + "." + str(i))
            if t == "UN":      # uninitialised box content
                return v
            if t == "R":
                raise Undecided("field through reference")
            if is_term(v):
                return self.term_field(st, v, var, i)
            if t == "top":
                return v
            raise Undecided("field of %r" % (v,))
        if k == "i":
            return self.index(st, v, e[1])
        if k == "ci":
            off, frm = e[1], e[2]
            if type(v) is tuple and v[0] == "V":
                pre, items = v[1], v[2]
                if pre is None:
                    return items[len(items) - off] if frm else items[off]
                if frm and off <= len(items):
                    return items[len(items) - off]
            else:
                pre, items = v, ()
            if is_term(pre):
                # elements of an unknown list, as far as its emptiness is known
                heads, t = [], pre
                while st.facts.get(("empty", t)) == ("in", frozenset((0,))):
                    heads.append(("head", t))
                    t = ("tail", t)
                if not frm and off < len(heads):
                    return heads[off]
                if st.facts.get(("empty", t)) == ("in", frozenset((1,))):
                    full = heads + list(items)
                    i = len(full) - off if frm else off
                    if 0 <= i < len(full):
                        return full[i]
            raise Undecided("const index")
        raise Undecided("proj %r" % (e,))

    def term_field(self, st, v, var, i):
        r = self.dom.field(self, st, v, var, i)
        if r is not None:
            return r
        return ("fld", v, var, i)

    def index(self, st, v, i):
        if type(v) is str and type(i) is int:
            return ord(v[i])
        if type(v) is tuple and v[0] == "V":
            if v[1] is None and type(i) is int:
                return v[2][i]
            return ("app", "index", (v, i))
        if is_term(v):
            return ("app", "index", (v, i))
        raise Undecided("index %r" % (v,))

    def loadp(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def updp(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == "f":
            _, var, i = e
            if type(v) is tuple and v[0] == "A":
                f = list(v[3])
                while len(f) <= i:
                    f.append(None)
                f[i] = self.updp(st, f[i], path[1:], new)
                return ("A", v[1], v[2], tuple(f))
            if type(v) is tuple and v[0] == "T":
                f = list(v[1])
                while len(f) <= i:
                    f.append(None)
                f[i] = self.updp(st, f[i], path[1:], new)
                return ("T", tuple(f))
            if type(v) is tuple and v[0] == "C":
                f = list(v[2])
                f[i] = self.updp(st, f[i], path[1:], new)
                return ("C", v[1], tuple(f))
            if type(v) is tuple and v[0] == "UN":
                # box content being initialised: (*b).value.value = x
                return self.updp(st, v, path[1:], new)
            if v is None:
                f = [None] * (i + 1)
                f[i] = self.updp(st, None, path[1:], new)
                return ("T", tuple(f))
            if is_term(v):
                ad = self.dom.adt_of(self, st, v)
                if ad is None:
                    raise Undecided("write into opaque %r" % (v,))
                n = len(self.P.adt_fields(ad, var))
                f = [self.term_field(st, v, var, j) for j in range(n)]
                f[i] = self.updp(st, f[i], path[1:], new)
                return ("A", ad, var, tuple(f))
            if type(v) is tuple and v[0] == "O":
                return v
            raise Undecided("write field of %r" % (v,))
        if k == "i":
            i = e[1]
            if type(v) is tuple and v[0] == "V" and v[1] is None and type(i) is int and i < len(v[2]):
                it = list(v[2])
                it[i] = self.updp(st, it[i], path[1:], new)
                return ("V", None, tuple(it))
            raise Undecided("write index")
        raise Undecided("write proj %r" % (e,))

    def resolve(self, st, d, place):
        """place -> (root, path)"""
        root = ("L", d, place[0])
        path = ()
        var = 0
        for e in place[1:]:
            k = e[0]
            if k == "*":
                v = self.loadp(st, self.load_root(st, root), path)
                if type(v) is tuple and v and v[0] == "R":
                    root, path = v[1], v[2]
                # Box: transparent
                var = 0
            elif k == "f":
                path = path + (("f", var, e[1]),)
                var = 0
            elif k == "d":
                var = e[1]
            elif k == "i":
                path = path + (("i", st.frames[d].loc.get(e[1])),)
            elif k == "ci":
                path = path + (("ci", e[1], e[3]),)
            else:
                raise Undecided("place %r" % (e,))
        return root, path

    def read_place(self, st, d, place):
        if len(place) == 1:
            return st.frames[d].loc.get(place[0])
        root, path = self.resolve(st, d, place)
        return self.loadp(st, self.load_root(st, root), path)

    def write_place(self, st, d, place, v):
        if len(place) == 1:
            st.frames[d].loc[place[0]] = v
            return
        root, path = self.resolve(st, d, place)
        old = self.load_root(st, root)
        self.store_root(st, root, self.updp(st, old, path, v))

    def deref(self, st, v):
        n = 0
        while type(v) is tuple and v and v[0] == "R":
            v = self.loadp(st, self.load_root(st, v[1]), v[2])
            n += 1
        return v

    def lastref(self, st, v):
        """follow references until the one that points at a non-reference"""
        while True:
            x = self.loadp(st, self.load_root(st, v[1]), v[2])
            if type(x) is tuple and x and x[0] == "R":
                v = x
            else:
                return v, x

    def store_ref(self, st, ref, v):
        root, path = ref[1], ref[2]
        self.store_root(st, root, self.updp(st, self.load_root(st, root), path, v))

    # ------------------------------------------------------------------ operands
    def const(self, st, c):
        if c.has:
            return c.val
        d = c.d
        k = d["k"]
        v = None
        if k in ("int", "str", "float"):
            v = d["v"]
            if k == "float":
                import struct
                v = struct.unpack("<d", struct.pack("<Q", d["v"]))[0]
                v = int(v) if self.digits is not None and v == int(v) else ("app", "f64", (v,))
        elif k == "zst":
            ty = self.P.types[d["t"]]
            if ty["k"] == "adt":
                v = ("A", ty["p"], 0, ())
            elif ty["k"] == "closure":
                v = ("C", ty["p"], ())
            else:
                v = UNIT
        elif k == "fn":
            v = ("F", FnRef.get(d["f"]))
        elif k == "agg":
            ty = self.P.types[d["t"]]
            fs = tuple(self.const(st, x if isinstance(x, Const) else Const(x)) for x in d["fields"])
            if ty["k"] == "adt":
                v = ("A", ty["p"], d["v"], fs)
            elif ty["k"] == "tuple":
                v = ("T", fs)
            else:
                v = ("V", None, fs)
        elif k == "bytes":
            v = ("R", ("V", ("V", None, tuple(d["v"]))), ())
        elif k == "promoted":
            v = self.promoted(d["of"], d["i"])
        else:
            if d.get("const") and d["const"] in self.P.bodies:
                v = self.eval_const_body(d["const"])
            else:
                v = ("app", "const", (str(d.get("d") or d.get("const") or d.get("p")),))
        c.val = v
        c.has = True
        return v

    def eval_const_body(self, key):
        body = self.P.bodies[key]
        st = State()
        f = Frame(body, None, None)
        st.frames.append(f)
        res = self.run(st)
        rets = [s for s in res if s[1][0] == "ret"]
        if len(rets) != 1:
            raise Undecided("const body %r" % (key,))
        v = rets[0][1][1]
        return self.freeze(rets[0][0], v)

    def promoted(self, of, i):
        return self.eval_const_body((of, i))

    def freeze(self, st, v):
        """turn references into a finished frame's locals into references to values"""
        if type(v) is tuple and v:
            if v[0] == "R":
                if v[1][0] == "L":
                    x = self.loadp(st, self.load_root(st, v[1]), v[2])
                    return ("R", ("V", self.freeze(st, x)), ())
                return v
            if v[0] == "A":
                return ("A", v[1], v[2], tuple(self.freeze(st, x) for x in v[3]))
            if v[0] in ("T",):
                return ("T", tuple(self.freeze(st, x) for x in v[1]))
            if v[0] == "V":
                return ("V", v[1], tuple(self.freeze(st, x) for x in v[2]))
        return v

    def operand(self, st, d, o):
        k = o[0]
        if k == "c":
            return self.read_place(st, d, o[1])
        if k == "m":
            return self.read_place(st, d, o[1])
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return 0
        raise Undecided("operand %r" % (o,))

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, d, rv):
        k = rv[0]
        if k == "use":
            v = self.operand(st, d, rv[1])
            if rv[1][0] == "m" and len(rv[1][1]) == 1:
                st.frames[d].loc[rv[1][1][0]] = None
            return v
        if k == "ref" or k == "rawptr":
            root, path = self.resolve(st, d, rv[1])
            pl = rv[1]
            if len(pl) == 2 and pl[1][0] == "*" and root == ("L", d, pl[0]) and not path and \
                    self.P.types[st.frames[d].body.locals[pl[0]][0]]["k"] == "ref":
                # reborrow of a reference that is represented by its value
                return self.loadp(st, self.load_root(st, root), path)
            if root[0] == "V":
                v = self.loadp(st, root[1], path)
                if type(v) is str:
                    return v
                return ("R", ("V", v), ())
            # a reference to a &str / string is kept as a reference; str values themselves need no location
            if root[0] == "L" and not path and rv[2:] == ("fake",):
                return ("R", root, path)
            return ("R", root, path)
        if k == "discr":
            v = self.read_place(st, d, rv[1])
            return self.discriminant(st, v, rv[2])
        if k == "bin":
            a = self.operand(st, d, rv[2])
            b = self.operand(st, d, rv[3])
            return self.binop(st, rv[1], a, b, rv[4])
        if k == "un":
            a = self.operand(st, d, rv[2])
            return self.unop(st, rv[1], a, rv[3])
        if k == "agg":
            ag = rv[1]
            fs = tuple(self.operand(st, d, o) for o in rv[2])
            if ag[0] == "adt":
                if ag[4] >= 0:
                    return fs[0]
                return ("A", ag[1], ag[2], fs)
            if ag[0] == "tuple":
                return ("T", fs)
            if ag[0] == "array":
                return ("V", None, fs)
            if ag[0] == "closure":
                return ("C", ag[1], fs)
            raise Undecided("aggregate %r" % (ag,))
        if k == "cast":
            a = self.operand(st, d, rv[2])
            return self.cast(st, rv[1], a, rv[3], rv[4])
        if k == "repeat":
            a = self.operand(st, d, rv[1])
            if 0 <= rv[2] <= 64:
                return ("V", None, (a,) * rv[2])
        raise Undecided("rvalue %s" % k)

    def discriminant(self, st, v, ti):
        v = self.deref(st, v) if type(v) is tuple and v and v[0] == "R" else v
        if type(v) is tuple and v:
            if v[0] == "A":
                ds = self.P.discr.get(v[1])
                return ds[v[2]] if ds else v[2]
            if is_term(v):
                ty = self.P.types[ti] if ti is not None else {}
                adt = ty.get("p")
                r = self.dom.discr(self, st, v, adt)
                if r is not None:
                    return r
                return ("discr", v, adt)
            if v[0] == "top":
                return ("app", "topd", (v,))
        raise Undecided("discriminant of %r" % (v,))

    BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
            "isize": 64, "i128": 128}

    def rng(self, ti):
        ty = self.P.types[ti]
        n = ty.get("n")
        if ty["k"] == "uint":
            return 0, (1 << self.BITS[n]) - 1
        if ty["k"] == "int":
            b = self.BITS[n]
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return None

    def binop(self, st, op, a, b, ti):
        if type(a) is tuple and a and a[0] == "R":
            a = self.deref(st, a) if self.P.types[ti]["k"] == "ref" else a
        if type(a) is int and type(b) is int:
            if op in ("Add", "AddUnchecked"):
                return a + b
            if op in ("Sub", "SubUnchecked"):
                return a - b
            if op in ("Mul", "MulUnchecked"):
                return a * b
            if op == "Div":
                return int(a / b) if b else 0
            if op == "Rem":
                return abs(a) % abs(b) * (1 if a >= 0 else -1) if b else 0
            if op == "BitXor":
                return a ^ b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "Shl":
                return a << b
            if op == "Shr":
                return a >> b
            if op == "Eq":
                return int(a == b)
            if op == "Ne":
                return int(a != b)
            if op == "Lt":
                return int(a < b)
            if op == "Le":
                return int(a <= b)
            if op == "Gt":
                return int(a > b)
            if op == "Ge":
                return int(a >= b)
            if op == "Cmp":
                return ("A", "std::cmp::Ordering", (a > b) - (a < b) + 1, ())
            if op.endswith("WithOverflow"):
                r = {"A": a + b, "S": a - b, "M": a * b}[op[0]]
                lo, hi = self.rng(ti)
                return ("T", (r, int(not (lo <= r <= hi))))
        if op.endswith("WithOverflow"):
            base = op[:-12]
            r = self.arith(st, base, a, b)
            return ("T", (r, self.overflow(st, base, a, b, r, ti)))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(st, op.replace("Unchecked", ""), a, b)
        if self.digits is not None and op in ("Shl", "BitOr", "BitXor"):
            r = self.digits.arith(self, st, op, a, b)
            if r is not None:
                return r
        if op in ("BitAnd", "BitOr", "BitXor") and self.P.types[ti]["k"] == "bool":
            if op == "BitAnd":
                if a == 0 or b == 0:
                    return 0
                if a == 1:
                    return b
                if b == 1:
                    return a
            if op == "BitOr":
                if a == 1 or b == 1:
                    return 1
                if a == 0:
                    return b
                if b == 0:
                    return a
            return ("bin", op, a, b)
        if op == "Ne":
            x = self.eqterm(st, a, b)
            return 1 - x if type(x) is int else ("un", "Not", x)
        if op == "Eq":
            return self.eqterm(st, a, b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            return self.cmpterm(st, op, a, b)
        if a is None or b is None:
            raise Undecided("binop on moved value")
        return ("bin", op, a, b)

    def eqterm(self, st, a, b):
        if a == b and not (type(a) is tuple and a and a[0] == "top"):
            return 1
        if type(a) is int and type(b) is int:
            return int(a == b)
        la, lb = lin(a), lin(b)
        if la and lb and (la[0] or lb[0]):
            d = dict(la[0])
            for t, c in lb[0]:
                d[t] = d.get(t, 0) - c
            d = {t: c for t, c in d.items() if c}
            k = la[1] - lb[1]
            if not d:
                return int(k == 0)
            if len(d) == 1:
                (t, c), = d.items()
                if c < 0:
                    c, k = -c, -k
                if c == 1 and t[0] == "len":
                    if k > 0:
                        return 0
                    x = t[1]
                    while k < 0 and st.facts.get(("empty", x)) == ("in", frozenset((0,))):
                        x, k = ("tail", x), k + 1
                    if k == 0:
                        return ("empty", x)
        r = self.dom.eq(self, st, a, b)
        if r is not None:
            return r
        if type(a) is int or (is_term(b) and not is_term(a)):
            a, b = b, a
        if is_term(a) and is_term(b) and repr(a) > repr(b):
            a, b = b, a
        return ("bin", "Eq", a, b)

    def cmpterm(self, st, op, a, b):
        r = self.dom.cmp(self, st, op, a, b)
        if r is not None:
            return r
        la, lb = lin(a), lin(b)
        if la and lb and la[0] == lb[0]:
            x = la[1] - lb[1]
            return int({"Lt": x < 0, "Le": x <= 0, "Gt": x > 0, "Ge": x >= 0}[op])
        if op == "Gt":
            return self._lt(b, a)
        if op == "Ge":
            return ("un", "Not", self._lt(a, b))
        if op == "Le":
            return ("un", "Not", self._lt(b, a))
        return self._lt(a, b)

    def _lt(self, a, b):
        return ("bin", "Lt", a, b)

    def arith(self, st, op, a, b):
        if self.digits is not None:
            if type(a) is int and type(b) is int:
                return {"Add": a + b, "Sub": a - b, "Mul": a * b}[op]
            r = self.digits.arith(self, st, op, a, b)
            if r is not None:
                return r
        la, lb = lin(a), lin(b)
        if op in ("Add", "Sub") and la and lb:
            d = dict(la[0])
            sg = 1 if op == "Add" else -1
            for t, c in lb[0]:
                d[t] = d.get(t, 0) + sg * c
            items = tuple(sorted(((t, c) for t, c in d.items() if c), key=repr))
            return mklin(items, la[1] + sg * lb[1])
        return ("bin", op, a, b)

    def overflow(self, st, op, a, b, r, ti):
        """0 when the operation cannot overflow, else a term that may be 1"""
        ty = self.P.types[ti]
        if op == "Add" and ty.get("n") in ("usize", "u64", "isize", "i64"):
            # counters bounded by the length of the input held in memory
            return 0
        if self.digits is not None and self.rng(ti) and self.digits.nooverflow(self, st, op, a, b, r, *self.rng(ti)):
            return 0
        la = lin(r)
        if op == "Sub" and la is not None and self.rng(ti) and self.rng(ti)[0] == 0 and self.atleast(st, a, b):
            return 0
        if op == "Sub" and la is not None and all(c > 0 for t, c in la[0]) and la[1] >= 0:
            return 0
        return ("app", "overflow", (op, a, b))

    def atleast(self, st, a, b):
        """a >= b follows from comparisons made on the path (a is unsigned)"""
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return False
        if type(b) is int and 0 <= b <= 8 and len(la[0]) == 1 and la[0][0][1] == 1:
            f = st.facts.get(la[0][0][0])
            if type(f) is tuple and f[0] == "out" and all(v - la[1] in f[1] for v in range(b)):
                return True
        d = self.lindiff(a, b)
        for t, f in st.facts.items():
            if type(t) is tuple and t[0] == "bin" and t[1] == "Lt" and type(f) is tuple and f[0] == "in" and len(f[1]) == 1:
                x, y = (t[2], t[3]) if 1 in f[1] else (t[3], t[2])
                e = self.lindiff(y, x)
                if e is not None and d[0] == e[0] and d[1] - e[1] >= (-1 if 1 in f[1] else 0):
                    return True
        return False

    def lindiff(self, a, b):
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        d = dict(la[0])
        for t, c in lb[0]:
            d[t] = d.get(t, 0) - c
        return {t: c for t, c in d.items() if c}, la[1] - lb[1]

    def unop(self, st, op, a, ti):
        if op == "Not":
            if type(a) is int:
                if self.P.types[ti]["k"] == "bool":
                    return 1 - a
                lo, hi = self.rng(ti)
                return hi - a if lo == 0 else ~a
            if type(a) is tuple and a[0] == "un" and a[1] == "Not":
                return a[2]
            return ("un", "Not", a)
        if op == "Neg" and type(a) is int:
            return -a
        if op == "PtrMetadata":
            return self.length(st, self.deref(st, a))
        return ("un", op, a)

    def length(self, st, v):
        if type(v) is str:
            return len(v.encode("utf8"))
        if type(v) is tuple and v and v[0] == "V":
            if v[1] is None:
                return len(v[2])
            return mklin(((("len", v[1]), 1),), len(v[2]))
        if is_term(v):
            return mklin(((("len", v), 1),), 0)
        return ("app", "len", (v,))

    def cast(self, st, kind, a, ti, fi):
        if kind.startswith("PointerCoercion"):
            return a
        ty = self.P.types[ti]
        if self.digits is not None:
            r = self.digits.cast(self, st, kind, a, ti, fi)
            if r is not None:
                return r
        if kind == "IntToInt":
            if type(a) is int:
                r = self.rng(ti)
                if r is None:
                    return a
                lo, hi = r
                n = hi - lo + 1
                return (a - lo) % n + lo
            fr, to = self.P.types[fi], ty
            if fr["k"] in ("char", "bool"):
                return a
            ra, rb = self.rng(fi), self.rng(ti)
            if ra and rb and rb[0] <= ra[0] and ra[1] <= rb[1]:
                return a
            return ("app", "cast_" + str(ty.get("n") or ty["k"]), (a,))
        if kind in ("Transmute", "PtrToPtr", "Subtype"):
            return a
        if kind == "IntToFloat":
            return ("app", "as_f64", (a,))
        return ("app", "cast_" + kind, (a,))

    # ------------------------------------------------------------------ splitting on facts
    def split(self, st, term, targets):
        """list of (target value | 'otherwise', state) for feasible outcomes"""
        if type(term) is int:
            for t in targets:
                if t == term:
                    return [(t, st)]
            return [("otherwise", st)]
        if term is None:
            raise Undecided("switch on moved value")
        if type(term) is tuple and term:
            k = term[0]
            if k == "un" and term[1] == "Not":
                res = []
                for v, s in self.split(st, term[2], [0, 1]):
                    v = 1 - v if type(v) is int else v
                    res.append((v if v in targets else "otherwise", s))
                return res
            r = self.dom.split(self, st, term, targets)
            if r is not None:
                return r
            if k == "bin":
                op, a, b = term[1], term[2], term[3]
                if op in ("BitOr", "BitAnd"):
                    res = []
                    for va, sa in self.split(st, a, [0, 1]):
                        if va == "otherwise":
                            raise Undecided("bool")
                        if (op == "BitOr" and va == 1) or (op == "BitAnd" and va == 0):
                            res.append((va if va in targets else "otherwise", sa))
                        else:
                            for vb, sb in self.split(sa, b, [0, 1]):
                                res.append((vb if vb in targets else "otherwise", sb))
                    return res
                if op == "Eq" and type(b) is int and is_term(a):
                    r = self.split_eq(st, a, b)
                    if r is not None:
                        return [(v if v in targets else "otherwise", s) for v, s in r]
                if op == "Eq" and is_term(b) and (b[0] == "sum" or is_term(a) and a[0] == "sum"):
                    x = self.arith(st, "Sub", a, b)
                    if type(x) is int:
                        v = int(x == 0)
                        return [(v if v in targets else "otherwise", st)]
                    r = self.split_eq(st, x, 0) if is_term(x) else None
                    if r is not None:
                        return [(v if v in targets else "otherwise", s) for v, s in r]
                if op == "Lt":
                    r = self.split_lt(st, a, b)
                    if r is not None:
                        return [(v if v in targets else "otherwise", s) for v, s in r]
            if k == "empty":
                pass
            return self.split_fact(st, term, targets)
        raise Undecided("switch on %r" % (term,))

    def domain_of(self, term):
        if term[0] == "discr" and term[2] in self.P.discr:
            return frozenset(self.P.discr[term[2]])
        if term[0] in ("empty", "nl", "flag") or (term[0] == "bin" and term[1] in ("Eq", "Lt", "BitOr", "BitAnd", "BitXor")) \
                or (term[0] == "app" and term[1] in ("overflow", "streq", "isok", "topb")) or (term[0] == "un" and term[1] == "Not"):
            return frozenset((0, 1))
        return None

    def split_fact(self, st, term, targets):
        f = st.facts.get(term)
        dom = self.domain_of(term)
        if f is None:
            f = ("in", dom) if dom is not None else ("out", frozenset())
        res = []
        feas = []
        for t in targets:
            ok = (t in f[1]) if f[0] == "in" else (t not in f[1])
            if ok:
                feas.append((t, ("in", frozenset((t,)))))
        if f[0] == "in":
            rest = f[1] - frozenset(targets)
            if rest:
                feas.append(("otherwise", ("in", rest)))
        else:
            feas.append(("otherwise", ("out", f[1] | frozenset(targets))))
        for i, (t, nf) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.copy()
            if nf != f:
                s.facts[term] = nf
                if len(feas) > 1:
                    s.note("fact", term, nf)
            res.append((t, s))
        return res

    def split_eq(self, st, a, c):
        """term a == concrete int c; returns [(bool, state)] or None"""
        l = lin(a)
        if a[0] == "sum" and len(l[0]) == 1:
            (t, coef), k = l[0][0], l[1]
            if coef == 1 and t[0] == "len":
                return self.split_len(st, t[1], c - k)
            if coef == -1 and t[0] == "len":
                return self.split_len(st, t[1], k - c)
            if coef == 1:
                return [(int(v != "otherwise"), s) for v, s in self.split_fact(st, t, [c - k])]
            return None
        if a[0] == "sum":
            return None
        return [(int(v != "otherwise"), s) for v, s in self.split(st, a, [c])]

    def split_len(self, st, V, n):
        """len(V) == n"""
        if n < 0:
            return [(0, st)]
        out = []
        cur = st
        t = V
        for _ in range(n):
            r = dict(self.split(cur, ("empty", t), [0, 1]))
            if 1 in r:
                out.append((0, r[1]))
            if 0 not in r:
                return out
            cur = r[0]
            t = ("tail", t)
        for v, s in self.split(cur, ("empty", t), [0, 1]):
            out.append((v, s))
        return out

    def split_lt(self, st, a, b):
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        # a < b  with difference  len(V)*c + k
        d = dict(la[0])
        for t, c in lb[0]:
            d[t] = d.get(t, 0) - c
        items = [(t, c) for t, c in d.items() if c]
        k = la[1] - lb[1]
        if len(items) == 1 and items[0][0][0] == "len":
            t, c = items[0]
            V = t[1]
            if c == 1:      # len + k < 0  <=> len < -k
                return self.split_lenlt(st, V, -k)
            if c == -1:     # k < len  <=> not (len < k+1)
                return [(1 - v, s) for v, s in self.split_lenlt(st, V, k + 1)]
        return None

    def split_lenlt(self, st, V, n):
        """len(V) < n"""
        if n <= 0:
            return [(0, st)]
        out = []
        cur = st
        t = V
        for _ in range(n):
            r = dict(self.split(cur, ("empty", t), [0, 1]))
            if 1 in r:
                out.append((1, r[1]))
            if 0 not in r:
                return out
            cur = r[0]
            t = ("tail", t)
        out.append((0, cur))
        return out

    # ------------------------------------------------------------------ running
    def run(self, st, stop_depth=0, limit=None):
        """run until an event at frame depth > stop_depth, or until the frame stack shrinks to stop_depth.
        returns list of (state, event)"""
        work = Work()
        work.append(st)
        n = 0
        while work:
            s = work.pop()
            try:
                self.run1(s, work, stop_depth)
            except Undecided as e:
                self.undecided.append((self.where(s), str(e)))
                work.emit(s, ("undecided", str(e), self.where(s)))
            except Panic as e:
                work.emit(s, ("panic", e.what, self.where(s)))
            except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
                if DEBUG:
                    raise
                self.undecided.append((self.where(s), repr(e)))
                work.emit(s, ("undecided", "internal: %r" % (e,), self.where(s)))
            n += 1
            if n > self.MAXPATHS:
                raise Undecided("too many paths")
        return work.out

    MAXPATHS = 6000

    def where(self, s):
        for f in reversed(s.frames):
            if f.body is not None:
                return "%s (%s)" % (f.body.fn, f.body.blocks[f.bb][2])
        return "?"

    def run1(self, st, work, stop_depth):
        """advance st; successors go to work, events to work.emit"""
        while True:
            d = len(st.frames) - 1
            f = st.frames[d]
            st.steps += 1
            if st.steps > self.MAXSTEPS:
                if self.repeats(st):
                    return work.emit(st, ("hang", self.where(st)))
                raise Undecided("step limit")
            if f.native is not None:
                raise Undecided("native frame without value")
            sts, t, sp, mb, cl = f.body.blocks[f.bb]
            for s in sts:
                k = s[0]
                if k == "=":
                    v = self.rvalue(st, d, s[2])
                    pl = s[1]
                    if len(pl) == 1:
                        f.loc[pl[0]] = v
                    else:
                        self.write_place(st, d, pl, v)
                elif k == "dead":
                    f.loc.pop(s[1], None)
                elif k == "setd":
                    raise Undecided("set discriminant")
            k = t[0]
            if k == "goto":
                f.bb = t[1]
            elif k == "switch":
                v = self.operand(st, d, t[1])
                tg = t[3]
                if type(v) is int:
                    nb = t[4]
                    for a, b in tg:
                        if a == v:
                            nb = b
                            break
                    f.bb = nb
                else:
                    if type(v) is tuple and v and v[0] == "R":
                        v = self.deref(st, v)
                    r = self.split(st, v, [a for a, b in tg])
                    m = dict(tg)
                    for val, s2 in r:
                        s2.frames[d].bb = t[4] if val == "otherwise" else m[val]
                    if len(r) == 1 and r[0][1] is st:
                        continue
                    for val, s2 in r:
                        work.append(s2)
                    return
            elif k == "drop":
                f.bb = t[2]
            elif k == "assert":
                c = self.operand(st, d, t[1])
                exp = int(t[2])
                self.site(st, f, "assert:" + t[3], sp)
                if type(c) is int:
                    if c != exp:
                        raise Panic("assert:" + t[3])
                    f.bb = t[5]
                else:
                    for v, s2 in self.split_assert(st, d, t, c):
                        if v == exp:
                            s2.frames[d].bb = t[5]
                            work.append(s2)
                        else:
                            work.emit(s2, ("panic", "assert:" + t[3], self.where(s2)))
                    return
            elif k == "call":
                if not self.call(st, d, f, t, sp, mb, work, stop_depth):
                    return
            elif k == "return":
                v = f.loc.get(0)
                if len(st.frames) - 1 == stop_depth:
                    return work.emit(st, ("ret", v))
                dest, target = f.dest, f.target
                st.frames.pop()
                if not self.deliver(st, dest, target, v, work, stop_depth):
                    return
            elif k == "unreachable":
                # compiler-proved unreachable (exhaustive matches): infeasible path
                return
            else:
                raise Undecided("terminator %s" % k)

    def repeats(self, st):
        return False

    def site(self, st, f, kind, sp):
        key = (f.body.fn if f.body else "?", sp, kind)
        self.panic_sites[key] = self.panic_sites.get(key, 0) + 1

    def split_assert(self, st, d, t, c):
        # subtraction of lengths: decide through emptiness facts
        if type(c) is tuple and c and c[0] == "app" and c[1] == "overflow":
            op, a, b = c[2]
            l = lin(self.arith(st, op, a, b))
            if op == "Sub" and l is not None:
                if len(l[0]) == 1 and l[0][0][0][0] == "len" and l[0][0][1] == 1:
                    # underflow  <=> len < -k
                    return self.split_lenlt(st, l[0][0][0][1], -l[1])
                if len(l[0]) == 0:
                    return [(int(l[1] < 0), st)]
        return [(v if type(v) is int else 1, s) for v, s in self.split(st, c, [0, 1])]

    def deliver(self, st, dest, target, v, work, stop_depth):
        """hand a call result to the frame on top; True when st can simply go on"""
        d = len(st.frames) - 1
        f = st.frames[d]
        if f.native is not None:
            for s2, act in self.models.resume(self, st, f, v):
                self.do_action(s2, act, work, stop_depth)
            return False
        if target < 0:
            return False
        self.write_place(st, d, dest, v)
        f.bb = target
        return True

    def do_action(self, st, act, work, stop_depth):
        """act: ('val', v) finishes the native frame on top; ('callv', f, args) calls a value below it; ('panic', what)"""
        try:
            if act[0] == "val":
                fr = st.frames.pop()
                if self.deliver(st, fr.dest, fr.target, act[1], work, stop_depth):
                    work.append(st)
            elif act[0] == "callv":
                if self.call_value(st, act[1], act[2], None, 0, work, stop_depth):
                    work.append(st)
            elif act[0] == "panic":
                work.emit(st, ("panic", act[1], self.where(st)))
            elif act[0] == "emit":
                work.emit(st, ("ret", act[1]))
            else:
                raise Undecided("action")
        except Undecided as e:
            self.undecided.append((self.where(st), str(e)))
            work.emit(st, ("undecided", str(e), self.where(st)))

    # ------------------------------------------------------------------ calls
    def call(self, st, d, f, t, sp, mb, work, stop_depth):
        func = t[1]
        args = [self.operand(st, d, o) for o in t[2]]
        for o in t[2]:
            # moved arguments are dead in the caller (keeps states small)
            if o[0] == "m" and len(o[1]) == 1:
                f.loc[o[1][0]] = None
        dest, target = t[3], t[4]
        if func[0] == "k" and func[1].d["k"] == "fn":
            fr = FnRef.get(func[1].d["f"])
            return self.call_fn(st, fr, args, dest, target, work, stop_depth, sp, mb)
        cv = self.deref(st, self.operand(st, d, func))
        return self.call_value(st, cv, args, dest, target, work, stop_depth, sp)

    def call_value(self, st, cv, args, dest, target, work, stop_depth, sp="?"):
        """call a callable value with a flat argument list"""
        ref = None
        if type(cv) is tuple and cv and cv[0] == "R":
            ref, cv = self.lastref(st, cv)
        if type(cv) is tuple and cv:
            if cv[0] == "F":
                return self.call_fn(st, cv[1], args, dest, target, work, stop_depth, sp, ())
            if cv[0] == "C":
                body = self.P.bodies.get(cv[1])
                if body is None:
                    raise Undecided("closure body %s" % cv[1])
                ty = self.P.types[body.locals[1][0]]
                if ty["k"] == "ref":
                    env = ref if ref is not None else ("R", ("V", cv), ())
                else:
                    env = cv
                return self.push(st, body, [env] + list(args), dest, target)
        raise Undecided("call of %r" % (cv,))

    def callback(self, st, fn, args):
        """outcomes of calling a callable value on its own: list of (state, event)"""
        self.push_native(st, "stop", None, None, 0)
        w = Work()
        if self.call_value(st, fn, args, None, 0, w, -1):
            w.append(st)
        out = list(w.out)
        for s in list(w):
            out.extend(self.run(s, -1))
        return out

    seen = set()        # functions whose bodies were interpreted

    def push(self, st, body, args, dest, target):
        if len(st.frames) > 60:
            raise Undecided("inline depth")
        n = 0
        for fr in st.frames:
            if fr.body is body:
                n += 1
        if n >= 3:
            raise Undecided("recursive inlining of %s" % body.fn)
        f = Frame(body, dest, target)
        self.seen.add(body.key)
        for i, a in enumerate(args):
            f.loc[i + 1] = a
        st.frames.append(f)
        self.visited_fns.add(body.fn)
        return True

    def push_native(self, st, name, data, dest, target):
        f = Frame(None, dest, target)
        f.native = name
        f.data = data
        st.frames.append(f)
        return f

    def resolve_fn(self, st, fr, args):
        """function key in the local program, or None"""
        r = fr.r
        if r and r in self.P.bodies:
            return r
        if fr.p in self.P.bodies:
            return fr.p
        if fr.trait and args:
            v = args[0]
            if type(v) is tuple and v and v[0] == "R":
                _, v = self.lastref(st, v)
            if type(v) is tuple and v and v[0] == "A":
                return self.P.traitimpl(v[1], fr.trait, fr.name)
        return None

    def scalar_ret(self, body):
        k = body.fn
        r = self._scalar_ret.get(k)
        if r is None:
            ty = self.P.types[body.locals[0][0]]
            r = ty["k"] in ("bool", "int", "uint", "char")
            if not r and ty["k"] == "ref" and self.P.types[ty["t"]]["k"] == "str":
                r = True
            if not r and ty["k"] == "adt" and ty["p"] in self.P.adts and self.P.adts[ty["p"]]["local"]:
                r = all(not v["f"] for v in self.P.adts[ty["p"]]["v"])
            self._scalar_ret[k] = r
        return r

    def call_fn(self, st, fr, args, dest, target, work, stop_depth, sp, mb):
        """True when st can simply go on; otherwise successors/events were queued"""
        key = self.resolve_fn(st, fr, args)
        self.visited_calls.add((sp, fr.p))
        if key is not None:
            om = self.objmodels.get(key)
            if om is not None:
                return self.outcomes(st, om(self, st, args, dest, target, work), dest, target, work, stop_depth)
            if key in self.nts:
                work.emit(st, ("call", key, tuple(args), dest, target))
                return False
            body = self.P.bodies[key]
            if fr.sym == "fn" and body.nargs != len(args):
                raise Undecided("argument count of %s" % key)
            if self.scalar_ret(body):
                return self.call_merged(st, body, args, dest, target, work, stop_depth)
            return self.push(st, body, args, dest, target)
        if fr.sym == "ctor":
            return self.outcomes(st, [(st, ("A", fr.adt, fr.v, tuple(args)))], dest, target, work, stop_depth)
        r = self.models.call(self, st, fr, args, dest, target, sp, mb)
        if r is None:
            self.unmodelled[fr.p] = self.unmodelled.get(fr.p, 0) + 1
            raise Undecided("unmodelled call %s" % fr.p)
        if type(r) is tuple:
            if r[0] == "value":   # call of a callable (a native frame may have been pushed before)
                return self.call_value(st, r[1], r[2], dest, target, work, stop_depth, sp)
            if r[0] == "body":
                return self.push(st, r[1], r[2], dest, target)
            if r[0] == "event":
                work.emit(st, r[1])
                return False
            if r[0] == "acts":    # a native frame is on top of each listed state
                for s2, act in r[1]:
                    self.do_action(s2, act, work, stop_depth)
                return False
        return self.outcomes(st, r, dest, target, work, stop_depth)

    def outcomes(self, st, outs, dest, target, work, stop_depth):
        if outs is None:
            return False
        if len(outs) == 1 and outs[0][0] is st and not (type(outs[0][1]) is PanicVal):
            return self.deliver(st, dest, target, outs[0][1], work, stop_depth)
        for s2, v in outs:
            if type(v) is PanicVal:
                work.emit(s2, ("panic", v.what, self.where(s2)))
            elif self.deliver(s2, dest, target, v, work, stop_depth):
                work.append(s2)
        return False

    _memo = None

    def memo_freeze(self, st, v, ids):
        """argument as a self-contained value over at most one token; None when not possible"""
        t = type(v)
        if t is int or t is str:
            return v
        if t is not tuple or not v:
            return None
        k = v[0]
        if k == "R":
            x = self.memo_freeze(st, self.deref(st, v), ids)
            return None if x is None else ("R", ("V", x), ())
        if k == "A":
            out = []
            for x in v[3]:
                y = self.memo_freeze(st, x, ids)
                if y is None:
                    return None
                out.append(y)
            return ("A", v[1], v[2], tuple(out))
        if k == "T":
            out = []
            for x in v[1]:
                y = self.memo_freeze(st, x, ids)
                if y is None:
                    return None
                out.append(y)
            return ("T", tuple(out))
        if k in ("tokty", "tokval", "tokpunc", "tokstr", "toknum", "tokattr", "ch"):
            if ids and ids[0] != v[1]:
                return None
            if not ids:
                ids.append(v[1])
            return (k, 0) + v[2:]
        return None

    def memo_call(self, st, body, args):
        """outcomes of a scalar helper of constants and of one token, computed once per run:
        list of (value, token mask or None), or None when the helper is not of that form"""
        ids = []
        fa = []
        for i, a in enumerate(args):
            ty = self.P.types[body.locals[i + 1][0]]
            if ty.get("mut"):
                return None, None
            x = self.memo_freeze(st, a, ids)
            if x is None:
                return None, None
            fa.append(x)
        if self._memo is None:
            self._memo = {}
        key = (body.fn, tuple(fa))
        if key in self._memo:
            return self._memo[key], ids
        self._memo[key] = None
        s = State()
        nu = len(self.undecided)
        self.push(s, body, fa, None, -1)
        try:
            res = self.run(s, stop_depth=0)
        except Undecided:
            del self.undecided[nu:]
            return None, ids
        out = []
        good = True
        for s2, ev in res:
            if ev[0] != "ret" or len(s2.frames) != 1 or s2.heap:
                good = False
                break
            v = ev[1]
            if type(v) is tuple and v and v[0] == "R":
                v = self.freeze(s2, v)
            if not (type(v) is int or type(v) is str or type(v) is tuple and v[:1] == ("A",) and not v[3]):
                good = False
                break
            m = None
            for t, f in s2.facts.items():
                if t == ("tok", 0) and type(f) is int:
                    m = f
                else:
                    good = False
            if not good:
                break
            for o in out:
                if o[0] == v and (o[1] is None) == (m is None):
                    if m is not None:
                        o[1] |= m
                    break
            else:
                out.append([v, m])
        if not good:
            del self.undecided[nu:]
            return None, ids
        self._memo[key] = out
        return out, ids

    def call_merged(self, st, body, args, dest, target, work, stop_depth):
        """explore a scalar-valued helper to completion and join outcomes that differ only in class facts"""
        memo, ids = self.memo_call(st, body, args)
        if memo is not None:
            outs = []
            for v, m in memo:
                if m is None:
                    outs.append((v, None))
                else:
                    m &= self.dom.getmask(st, ids[0])
                    if m:
                        outs.append((v, m))
            for i, (v, m) in enumerate(outs):
                s2 = st if i == len(outs) - 1 else st.copy()
                if m is not None:
                    self.dom.setmask(s2, ids[0], m)
                if self.deliver(s2, dest, target, v, work, stop_depth):
                    if len(outs) == 1:
                        return True
                    work.append(s2)
            return False
        depth = len(st.frames)
        base = st.copy()
        self.push(st, body, args, dest, target)
        nu = len(self.undecided)
        res = self.run(st, stop_depth=depth)
        if any(ev[0] not in ("ret", "panic", "undecided", "hang") for s, ev in res):
            # an event inside a scalar helper: fall back to plain inlining
            self.push(base, body, args, dest, target)
            work.append(base)
            return False
        groups = {}
        order = []
        if len(res) > 1 and self.P.types[body.locals[0][0]]["k"] == "bool":
            # a test left open on some paths is decided, so that the paths can be joined by their answer
            more = []
            for s, ev in res:
                if ev[0] == "ret" and type(ev[1]) is tuple:
                    try:
                        rs = self.split(s.copy(), ev[1], [0, 1])
                    except Undecided:
                        rs = None
                    if rs and all(b in (0, 1) for b, _ in rs):
                        more.extend((x, ("ret", b) + tuple(ev[2:])) for b, x in rs)
                        continue
                more.append((s, ev))
            res = more
        for s, ev in res:
            if ev[0] != "ret":
                work.emit(s, ev)
                continue
            v = ev[1]
            if type(v) is tuple and v and v[0] == "R" and v[1][0] == "L" and v[1][1] >= depth:
                v = self.freeze(s, v)
            s.frames.pop()
            key = (v, self.memkey(s))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(s)
        outs = []
        for key in order:
            for s in self.join(groups[key], base):
                outs.append((s, key[0]))
        for s2, v in outs:
            if self.deliver(s2, dest, target, v, work, stop_depth):
                work.append(s2)
        return False

    def memkey(self, s):
        return (tuple(sorted(((k, v) for k, v in s.heap.items()), key=lambda x: repr(x[0]))),
                tuple((id(f.body), f.bb, tuple(sorted(f.loc.items(), key=lambda x: repr(x[0]))))
                      if f.body is not None else (f.native, f.data)
                      for f in s.frames), tuple(s.toks))

    def join(self, ss, base):
        """join states equal up to class-mask facts: union masks when only one fact differs"""
        todo = list(ss)
        changed = True
        while changed and len(todo) > 1:
            changed = False
            for i in range(len(todo)):
                for j in range(i + 1, len(todo)):
                    m = self.join2(todo[i], todo[j])
                    if m is not None:
                        todo[i] = m
                        del todo[j]
                        changed = True
                        break
                if changed:
                    break
        return todo

    def join2(self, a, b):
        fa, fb = a.facts, b.facts
        diff = None
        for k in set(fa) | set(fb):
            va, vb = fa.get(k), fb.get(k)
            if va != vb:
                if diff is not None:
                    return None
                diff = (k, va, vb)
        if diff is None:
            return a
        k, va, vb = diff
        if type(va) is int and type(vb) is int:
            a.facts[k] = va | vb
            return a
        if va is None or vb is None:
            a.facts.pop(k, None)
            return a
        if type(va) is tuple and type(vb) is tuple:
            if va[0] == "in" and vb[0] == "in":
                u = va[1] | vb[1]
                dom = self.domain_of(k) if type(k) is tuple else None
                if dom is not None and u == dom:
                    a.facts.pop(k, None)
                else:
                    a.facts[k] = ("in", u)
                return a
            if va[0] == "out" and vb[0] == "out":
                a.facts[k] = ("out", va[1] & vb[1])
                return a
            if va[0] == "in":
                va, vb = vb, va
            r = va[1] - vb[1]
            if r:
                a.facts[k] = ("out", r)
            else:
                a.facts.pop(k, None)
            return a
        return None


class Work(list):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, st, ev):
        self.out.append((st, ev))


class PanicVal:
    def __init__(self, what):
        self.what = what


class FnRef:
    """interned callee record"""
    __slots__ = ("p", "r", "name", "trait", "local", "sym", "adt", "v", "key", "targs", "tag")
    table = {}

    @classmethod
    def get(cls, d):
        k = (d["p"], d["r"], tuple(d["targs"]))
        o = cls.table.get(k)
        if o is None:
            o = cls()
            o.p, o.r, o.name, o.trait, o.local, o.sym = d["p"], d["r"], d["name"], d["trait"], d["local"], d["sym"]
            o.adt, o.v = d.get("adt"), d.get("v")
            o.targs = tuple(d["targs"])
            o.key = callkey(d)
            o.tag = len(cls.table)
            cls.table[k] = o
        return o

    def __repr__(self):
        return "fn:" + (self.r or self.p)

    def __lt__(self, o):
        return self.tag < o.tag


def lin(v):
    """linear form ((term, coef)...), const"""
    if type(v) is int:
        return ((), v)
    if type(v) is tuple and v:
        if v[0] == "sum":
            return (v[1], v[2])
        if is_term(v) and v[0] not in ("bin", "un", "discr", "nl", "flag"):
            return (((v, 1),), 0)
    return None


def mklin(items, k):
    if not items:
        return k
    if k == 0 and len(items) == 1 and items[0][1] == 1 and items[0][0][0] != "len":
        return items[0][0]
    return ("sum", tuple(items), k)
