"""Lock-step exploration of the compiled scanner against the reference lexical grammar (spec/lexical.py).

The scanner's `next` is interpreted whole from MIR; its input iterator delivers symbolic characters, classified lazily.
Joint states are generalised (string contents common to both sides are replaced by symbols, counters are kept relative to
the reference's own position) until they repeat.
"""
import os, time
from .interp import State, Undecided, UNIT, is_term, lin, mklin, loglist, PanicVal
from .models import OPT, RES, some, ok, err, NONE, mkvec, mkstr, sparts
from .product import Product, Mismatch, RFrame, Finding, Elsewhere, FAILED, ERROR
from .tokens import TOKEN, TOKTYPE, VALUE, PUNC
from spec import tokens as T

SCANNER = "scanner::scanner::Scanner"
COUNTERS = ("line", "col", "current")
STARTS = ("start_line", "start_col", "start")
TEXTUAL = ("text", "raw", "cooked")
TOKPOS = ("line_num", "col", "start")
FREETEXT = ("string_literal", "template", "regular_expression")


class LexProduct(Product):
    LAG = 1
    aspect = None

    def __init__(self, prog, interp, dom, ref, key):
        super().__init__(prog, interp, dom, ref, {}, {})
        self.skey = key
        self.nt = "next"

    # ------------------------------------------------------------------ setup
    def sfields(self):
        return [n for n, _ in self.P.adts[SCANNER]["v"][0]["f"]]

    def ftype(self, i):
        ty = self.P.adts[SCANNER]["v"][0]["f"][i][1]
        return self.P.types[ty] if isinstance(ty, int) else {"k": "?", "s": str(ty)}

    def sval(self, st):
        return st.heap["P"]

    def sfield(self, st, name):
        fs = self.sfields()
        return self.sval(st)[3][fs.index(name)] if name in fs else None

    def initial(self):
        """field values Scanner::new gives"""
        ks = [k for k in self.P.bodies if isinstance(k, str) and k.startswith(SCANNER) and k.endswith("::new")]
        if len(ks) != 1:
            raise Undecided("scanner constructor not found")
        st = State()
        self.I.push(st, self.P.bodies[ks[0]], [("O", "source")], None, -1)
        out = [(s, ev) for s, ev in self.I.run(st, stop_depth=0)]
        if len(out) != 1 or out[0][1][0] != "ret":
            raise Undecided("scanner constructor")
        v = out[0][1][1]
        if type(v) is not tuple or v[0] != "A" or v[1] != SCANNER:
            raise Undecided("scanner constructor")
        return v

    def entry(self, st, init, havoc):
        fs = []
        for i, (n, x) in enumerate(zip(self.sfields(), init[3])):
            t = self.ftype(i)
            if n in COUNTERS or n in STARTS:
                x = ("sym", ("ctr", n))
            elif n in havoc and t["k"] == "bool":
                x = ("sym", "f:" + n)
            elif n in ("newline", "start_newline"):
                x = ("sym", "f:" + n)
            elif n == "state":
                x = ("sym", "f:" + n)
            elif type(x) is tuple and x and x[0] == "V" and x[1] is None and not x[2]:
                x = ("V", ("sym", "stack:" + n), ())
            fs.append(x)
        return ("A", SCANNER, 0, tuple(fs))

    def setup_lex(self, goal, nbuf, mask):
        st = State()
        self.init = self.initial()
        st.heap["P"] = self.entry(st, self.init, ())
        st.nid = 1000
        e = st.extra = {"ic": 0, "rc": 0, "mx": 0, "iev": None, "rev": None, "fl": {}, "prog": 0, "mode": None}
        if nbuf:
            self.setbuf(st, tuple(("ch", i) for i in range(nbuf)))
            e["ic"] = nbuf
            for i in range(nbuf):
                st.facts[("tok", i)] = self.dom.CHARS
        self.first = mask
        body = self.P.bodies[self.skey]
        g = self.goalvalue(body, goal)
        self.I.push(st, body, [("R", ("G", "P"), ()), g], None, -1)
        f = self.ref["lex_next"]
        e["rf"] = [RFrame(f, {"goal": goal}, None, None)]
        e["pos"] = tuple(("sym", ("ctr", n)) for n in COUNTERS)
        e["rnl"] = 0
        e["start"] = None
        e["raw"] = None
        b = self.sfield(st, "curly_stack")
        e["braces"] = b if b is not None else ("V", ("sym", "stack:curly_stack"), ())
        return st

    def goalvalue(self, body, goal):
        ty = self.P.types[body.locals[2][0]]
        for i, v in enumerate(self.P.adts[ty["p"]]["v"]):
            if v["n"] == goal:
                return ("A", ty["p"], i, ())
        raise Undecided("lexical goal %s" % goal)

    def bufpath(self, v=None, path=()):
        """path to the look-ahead buffer inside the scanner value"""
        if v is None:
            v = self.init
        out = []
        for i, x in enumerate(v[3]):
            if type(x) is tuple and x:
                n = self.P.adts[v[1]]["v"][0]["f"][i][0]
                if x[0] == "V" and v[1] != SCANNER:
                    out.append(path + (i,))
                elif x[0] == "A" and x[1] in self.P.adts and not self.P.adts[x[1]]["enum"]:
                    out += self.bufpath(x, path + (i,))
        return out

    def setbuf(self, st, items):
        ps = self.bufpath()
        if len(ps) != 1:
            raise Undecided("look-ahead buffer not found")

        def upd(v, path):
            fs = list(v[3])
            fs[path[0]] = mkvec(None, items) if len(path) == 1 else upd(fs[path[0]], path[1:])
            return ("A", v[1], v[2], tuple(fs))
        st.heap["P"] = upd(st.heap["P"], ps[0])

    def priority(self, s):
        return s.extra["prog"] + s.extra.get("prog2", 0)

    def consumed(self, st):
        """characters the implementation has consumed, None when that cannot be told"""
        ps = self.bufpath()
        if len(ps) != 1:
            return None
        v = st.heap["P"]
        for i in ps[0]:
            v = v[3][i]
        if type(v) is tuple and v[0] == "V" and v[1] is None:
            return st.extra["ic"] - len(v[2])
        return None

    def install(self):
        pass

    # ------------------------------------------------------------------ stepping
    def impl_ret(self, s, ev):
        out = []
        for s2, vi, fs in self.I.models.cases(self.I, s, ev[1], RES):
            s2.extra["iev"] = ("ret", fs[0]) if vi == 0 else ("err", fs[0])
            out.append(s2)
        return out

    def step1(self, st):
        e = st.extra
        if e["iev"] is None:
            out = []
            st.steps = 0
            for s, ev in self.I.run(st, stop_depth=0):
                s.extra["iev"] = ev
                k = ev[0]
                if k == "panic":
                    self.panic(s, ev)
                elif k == "hang":
                    self.report(s, "hang", "loop without event")
                elif k == "undecided":
                    self.undec.append((self.nt, "%s at %s" % (ev[1], ev[2])))
                elif k == "ret":
                    out.extend(self.impl_ret(s, ev))
                else:
                    out.append(s)
            return out
        if e["rev"] is None:
            return self.run_ref(st)
        ik, rk = e["iev"][0], e["rev"][0]
        if ik == "err" and rk == "fail":
            self.both_reject(st)
            return []
        if ik == "err":
            if rk == "take":
                return self.do_take(st)
            raise Mismatch("rejects-valid", "rejects a valid %s" % self.refplace(st))
        if rk == "fail":
            if ik == "adv":
                return self.do_adv(st)
            raise Mismatch("accepts-invalid", "accepts an invalid %s" % self.failplace(st))
        if rk == "ret" and ik == "ret":
            return self.match_ret(st)
        if ik == "ret":
            if e["rc"] - e["ic"] > 4:
                raise Mismatch("ends-early", "ends the token inside a %s" % self.refplace(st))
            return self.do_take(st)
        if rk == "ret":
            if e["ic"] - e["rc"] > 4:
                raise Mismatch("consumes-more", "goes on reading after the end of the %s" % self.refplace(st))
            return self.do_adv(st)
        p = self.consumed(st)
        behind = e["rc"] < p if p is not None else e["rc"] + self.LAG < e["ic"]
        return self.do_take(st) if behind else self.do_adv(st)

    def refplace(self, st):
        fs = [f.fn.name for f in st.extra["rf"] if f.fn.name not in ("lex_next",)]
        return fs[0] if fs else st.extra.get("lastfn", "token")

    def failplace(self, st):
        return self.refplace(st)

    def both_reject(self, st):
        self.nerr = getattr(self, "nerr", 0) + 1

    def split_eof(self, st, k):
        """[(state, at end of input)]"""
        dom = self.dom
        m = dom.getmask(st, k)
        if k > 0 and dom.getmask(st, k - 1) == dom.EOF:
            m = dom.EOF
            dom.setmask(st, k, m)
        out = []
        if m & dom.EOF:
            s = st if m == dom.EOF else st.copy()
            dom.setmask(s, k, dom.EOF)
            out.append((s, 1))
        if m & ~dom.EOF:
            dom.setmask(st, k, m & ~dom.EOF)
            out.append((st, 0))
        return out

    def do_adv(self, st):
        out = []
        k = st.extra["ic"]
        for s, end in self.split_eof(st, k):
            ev = s.extra["iev"]
            s.extra["iev"] = None
            if end:
                v = NONE
            else:
                v = some(("ch", k))
                s.extra["ic"] = k + 1
                s.extra["prog"] += 1
                s.note("tok", k)
            self.deliver(s, ev[1], ev[2], v)
            out.append(s)
        return out

    def do_take(self, st):
        dom = self.dom
        k = st.extra["rc"]
        out = []
        for s, end in self.split_eof(st, k):
            if end:
                raise Undecided("the reference reads past the end of input")
            # a carriage return counts as a line of its own unless a line feed follows
            m = dom.getmask(s, k)
            cr, lf, lt = dom.set((13,)), dom.set((10,)), dom.SETS["#lt"]
            for kind, cm in (("cr", m & cr), ("lt", m & lt & ~cr), ("", m & ~lt)):
                if not cm:
                    continue
                s2 = s.copy()
                dom.setmask(s2, k, cm)
                for s3, end2 in self.split_eof(s2, k + 1):
                    m2 = dom.getmask(s3, k + 1)
                    alts = [(kind == "lt", m2)]
                    if kind == "cr":
                        alts = [(b, x) for b, x in ((0, m2 & lf), (1, m2 & ~lf)) if x]
                    elif end2 == 0:
                        pass
                    for nl, x in alts:
                        s4 = s3.copy()
                        if kind == "cr":
                            dom.setmask(s4, k + 1, x)
                        elif m2 != dom.getmask(st, k + 1):
                            pass
                        self.took(s4, k, kind, nl)
                        out.append(s4)
                    if kind != "cr":
                        # nothing depends on the next character: undo the split on the end of input
                        out[-1].facts.pop(("tok", k + 1), None)
                        if ("tok", k + 1) in st.facts:
                            out[-1].facts[("tok", k + 1)] = st.facts[("tok", k + 1)]
                        break
        return out

    def took(self, s, k, kind, nl):
        e = s.extra
        I = self.I
        line, col, cur = e["pos"]
        cur = I.arith(s, "Add", cur, 1)
        if nl:
            line, col = I.arith(s, "Add", line, 1), 1
            e["rnl"] = 1
        else:
            col = I.arith(s, "Add", col, 1)
        e["pos"] = (line, col, cur)
        if e["raw"] is not None:
            p, it = sparts(e["raw"])
            if kind == "cr":
                it = it + ((10,) if nl else ())
            else:
                it = it + (("ch", k),)
            e["raw"] = mkstr(p, it)
        rev = e["rev"]
        e["rc"] = k + 1
        e["rev"] = None
        e["prog2"] = e.get("prog2", 0) + 1
        rf = e["rf"] = [f.copy() for f in e["rf"]]
        rf[-1].env[rev[1]] = ("ch", k)
        rf[-1].pc += 1

    # ------------------------------------------------------------------ reference primitives
    def lexmask(self, args):
        m = 0
        for a in args:
            m |= self.dom.SETS[a] if len(a) > 1 else self.dom.set((ord(a),))
        return m

    def ch(self, x):
        if type(x) is str and len(x) == 1:
            return ord(x)
        return x

    def prim(self, st, f, name, args, kw):
        e = st.extra
        I = self.I
        dom = self.dom
        if name == "at":
            return self.testmask(st, e["rc"], self.lexmask(args))
        if name in ("peek_at", "peek2_at"):
            k = e["rc"]
            outs = []
            todo = [(st, 0)]
            n = 1 if name == "peek_at" else 2
            for i in range(n):
                nxt = []
                for s, end in todo:
                    if end:
                        nxt.append((s, 1))
                    else:
                        nxt.extend(self.split_eof(s, k + i))
                todo = nxt
            for s, end in todo:
                if end:
                    outs.append((s, int(bool(self.lexmask(args) & dom.EOF))))
                else:
                    outs.extend(self.testmask(s, k + n, self.lexmask(args)))
            return outs
        if name == "pick":
            m = dom.getmask(st, e["rc"])
            res = []
            for c in args[0]:
                b = dom.set((ord(c),))
                if m & b:
                    res.append((ord(c), b))
                    m &= ~b
            if m:
                res.append((0, m))
            return [(s, v) for v, s in dom.fork(st, e["rc"], res)]
        if name == "ext":
            # characters that extend the text to a longer punctuator
            nx = sorted({t[len(args[0])] for t in args[1] if t.startswith(args[0]) and len(t) > len(args[0])})
            return self.prim(st, f, "pick", ["".join(nx)], kw)
        if name == "isin":
            # class test on a character value
            x = args[0]
            return [(s, v) for v, s in I.split(st, dom.test(st, x, self.lexmask(args[1:])), [0, 1])] if dom.isch(x) else \
                int(bool(dom.atom_of(x) & self.lexmask(args[1:])))
        if name == "cat":
            p, it = sparts(args[0])
            for x in args[1:]:
                if type(x) is str and len(x) == 1:
                    x = ord(x)
                if type(x) is str or type(x) is tuple and x[0] == "S":
                    px, ix = sparts(x)
                    it = it + ix
                else:
                    it = it + (x,)
            return mkstr(p, it)
        if name == "chcat":
            p, it = sparts(args[0])
            return mkstr(p, it + (args[1],))
        if name == "isempty":
            return int(args[0] == "")
        if name == "radix":
            p, it = sparts(args[0])
            if len(it) == 1 and not (type(it[0]) is tuple and it[0][0] == "sub"):
                x = dom.single(dom.vmask(st, it[0]))
                if x is not None:
                    from .chars import digit
                    return digit(x, args[1])
                return ("app", "digit", (it[0],))
            if all(dom.single(dom.vmask(st, x)) is not None for x in it) and it:
                return int("".join(chr(dom.single(dom.vmask(st, x))) for x in it), args[1])
            return ("app", "radix", (args[0], args[1]))
        if name == "validcp":
            if type(args[0]) is int:
                return int(args[0] <= 0x10FFFF and not 0xD800 <= args[0] <= 0xDFFF)
            return [(s, int(v == 1)) for v, s in I.split(st, ("app", "validcp", (args[0],)), [0, 1])]
        if name == "chr":
            return args[0] if type(args[0]) is int else ("ch", args[0])
        if name == "parsef":
            return ("app", "parse", ("f64", args[0]))
        if name == "less":
            return [(s, int(v == 1)) for v, s in I.split(st, I.cmpterm(st, "Lt", args[0], args[1]), [0, 1])] \
                if type(args[0]) is not int else int(args[0] < args[1])
        if name == "textis":
            r = dom.streq(I, st, args[0], args[1]) if type(args[0]) is not str else int(args[0] == args[1])
            return r if type(r) is int else [(s, int(v == 1)) for v, s in I.split(st, r, [0, 1])]
        if name == "wordin":
            w = args[0]
            if type(w) is str:
                return int(w in args[1])
            return [(s, int(v == 1)) for v, s in I.split(st, ("app", "win", (w, tuple(args[1]))), [0, 1])]
        if name == "deviation":
            self.notes.add(args[0])
            return UNIT
        if name == "resetnl":
            e["rnl"] = 0
            return UNIT
        if name == "begin":
            e["start"] = e["pos"] + (e["rnl"],)
            return UNIT
        if name == "only":
            # tokens that start otherwise are another task's
            m = self.dom.getmask(st, e["rc"]) & self.first
            if not m:
                raise Elsewhere()
            self.dom.setmask(st, e["rc"], m)
            return UNIT
        if name == "record":
            e["raw"] = ""
            return UNIT
        if name == "recorded":
            r, e["raw"] = e["raw"], None
            return r
        if name == "push_brace":
            b = e["braces"]
            e["braces"] = mkvec(b[1], b[2] + (args[0],))
            return UNIT
        if name == "pop_brace":
            b = e["braces"]
            if b[2]:
                e["braces"] = mkvec(b[1], b[2][:-1])
                return UNIT
            if b[1] is None:
                return UNIT
            st.heap["B"] = b
            outs = []
            for s, v in I.models.m_Vec__pop(I, st, [("R", ("G", "B"), ())]):
                s.extra["braces"] = s.heap.pop("B")
                outs.append((s, UNIT))
            return outs
        if name == "top_is":
            outs = []
            for s, v in I.models.m_slice__last(I, st, [("R", ("V", e["braces"]), ())]):
                for s2, r in I.models.equal(I, s, v, some(args[0])):
                    if type(r) is int:
                        outs.append((s2, r))
                    else:
                        outs.extend((s3, int(b == 1)) for b, s3 in I.split(s2, r, [0, 1]))
            return outs
        if name == "tok":
            return ("T", ("tok",) + tuple(args) + (tuple(sorted(kw.items())),))
        return super().prim(st, f, name, args, kw)

    # ------------------------------------------------------------------ the returned token
    def match_ret(self, st):
        e = st.extra
        I = self.I
        v, r = e["iev"][1], e["rev"][1]
        r = r[1]
        kind, val = r[1], r[2]
        kw = dict(r[3])
        p = self.consumed(st)
        if p is not None and p != e["rc"]:
            d = p - e["rc"]
            raise Mismatch("extent", "%s ends %d character(s) %s" % (kind, abs(d), "late" if d > 0 else "early"))
        if not (type(v) is tuple and v[0] == "A" and v[1] == TOKEN):
            raise Undecided("token %r" % (v,))
        tf = dict(zip([n for n, _ in self.P.adts[TOKEN]["v"][0]["f"]], v[3]))
        tt = tf["tokentype"]
        have = self.P.adts[TOKTYPE]["v"][tt[2]]["n"] if type(tt) is tuple and tt[0] == "A" else None
        if have is None:
            raise Undecided("token type")
        if have != kind:
            raise Mismatch("type", "a %s is scanned as %s" % (kind, have))
        outs = [st]
        tv = tf["value"]
        if not (type(tv) is tuple and tv[0] == "A"):
            raise Undecided("token value")
        vk = self.P.adts[VALUE]["v"][tv[2]]["n"]
        wk, wv = val[1][0], val[1][1] if len(val[1]) > 1 else None
        if vk != wk:
            raise Mismatch("value", "%s holds a %s value instead of %s" % (kind, vk, wk))
        if wk == "Punc":
            n = self.P.adts[PUNC]["v"][tv[3][0][2]]["n"] if tv[3][0][0] == "A" else None
            text = dict(T.PUNCT, QMarkDot="?.", QMarkQMark="??").get(n)
            if text != wv:
                raise Mismatch("value", "%s is scanned as %s" % (wv, text or n))
        elif wk in ("Str", "Num"):
            self.same(st, kind + " value", tv[3][0], wv, wk)
        for n in ("pattern", "flags", "cooked", "head", "tail"):
            if n not in tf:
                raise Undecided("token field %s" % n)
            have, want = tf[n], kw.get(n)
            if want is None:
                if not (type(have) is tuple and have[0] == "A" and have[2] == 0):
                    raise Mismatch("value", "%s has a %s" % (kind, n))
                continue
            if not (type(have) is tuple and have[0] == "A" and have[2] == 1):
                raise Mismatch("value", "%s has no %s" % (kind, n))
            self.same(st, "%s %s" % (kind, n), have[3][0], want, "Str" if n not in ("head", "tail") else "Bool")
        sl, sc, sp, snl = e["start"]
        for n, w in (("line_num", sl), ("col", sc), ("start", sp), ("newline", snl)):
            if self.aspect in TEXTUAL:
                continue
            if n in tf and tf[n] != w:
                raise Mismatch("position", "%s of a %s is not that of its first character" % (n, kind) if n != "newline" else
                               "line-terminator flag of a %s is wrong" % kind)
        for n, w in zip(COUNTERS, e["pos"]) if self.aspect not in TEXTUAL else ():
            h = self.sfield(st, n)
            if h is not None and h != w:
                raise Mismatch("counter", "scanner %s after a %s is wrong" % (n, kind))
        h = self.sfield(st, "newline")
        if h is not None and h != e["rnl"] and self.aspect not in TEXTUAL:
            raise Mismatch("counter", "scanner newline flag after a %s is wrong" % kind)
        h = self.sfield(st, "curly_stack")
        if h is not None and h != e["braces"]:
            raise Mismatch("braces", "brace nesting after %s is wrong" % (kind if wk != "Punc" else wv))
        # what the next token starts from
        for i, (n, x, x0) in enumerate(zip(self.sfields(), self.sval(st)[3], self.init[3])):
            if n in COUNTERS + STARTS + ("newline", "start_newline", "curly_stack", "reader"):
                continue
            if n == "state":
                x0 = ("sym", "f:state")
            if self.aspect in ("pos", "cooked") and self.ftype(i).get("p") == "std::string::String":
                continue
            if x != x0 and self.ftype(i)["k"] != "?":
                raise Mismatch("residue", "%s is left changed after a %s" % (n, kind))
        self.ntok = getattr(self, "ntok", 0) + 1
        return []

    def same(self, st, what, a, b, kind):
        if kind == "Str" and (self.aspect == "pos" or self.aspect == "raw" and what.endswith("cooked") or
                              self.aspect == "cooked" and what.endswith("value")):
            return
        a, b = self.normal(st, a), self.normal(st, b)
        if a == b:
            return
        if kind == "Str":
            for x, y in ((a, b), (b, a)):
                if type(x) is str and type(y) is tuple and y[0] == "S":
                    if self.dom.streq(self.I, st, y, x) == 1:
                        return
        raise Mismatch("value", "%s differs: %s instead of %s" % (what, self.vs(st, a), self.vs(st, b)))

    def normal(self, st, v):
        """characters determined by their class become literal"""
        dom = self.dom
        if type(v) is tuple and v:
            if v[0] == "ch":
                x = dom.single(dom.vmask(st, v))
                return x if x is not None else v
            if v[0] == "S":
                return mkstr(v[1], tuple(self.normal(st, x) for x in v[2]))
            if v[0] == "app":
                r = v[:2] + (tuple(self.normal(st, x) if type(x) is tuple else x for x in v[2]),)
                if r[1] == "radix" and type(r[2][0]) is tuple and len(r[2][0][2]) == 1 and dom.isch(r[2][0][2][0]):
                    return ("app", "digit", (r[2][0][2][0],))
                return r
            if v[0] == "R":
                return self.normal(st, self.I.deref(st, v))
        return v

    def vs(self, st, v):
        if type(v) is str:
            return repr(v)
        if type(v) is int:
            return str(v)
        if type(v) is tuple and v:
            if v[0] == "ch":
                return "<%s>" % (self.dom.show(self.dom.vmask(st, v)) if type(v[1]) is int else "char(%s)" % self.vs(st, v[1]))
            if v[0] == "sub":
                return "text"
            if v[0] == "S":
                return "+".join(("U+%02X" % x) if type(x) is int else self.vs(st, x) for x in v[2])
            if v[0] == "app":
                return "%s(%s)" % (v[1], ", ".join(self.vs(st, x) for x in v[2]))
        return str(v)

    def trace(self, st):
        out = []
        n = 0
        for x in loglist(st.log):
            if x[0] == "tok":
                out.append("%s" % st.extra.get("shown", {}).get(x[1], self.dom.show(self.dom.getmask(st, x[1]))))
        return " ".join(out[:60])

    def lineprefix(self, st):
        """a line terminator stands before the token"""
        lts = {"<line terminator>", "U+000A", "U+000D", "U+2028", "U+2029"}
        for x in loglist(st.log):
            if x[0] == "tok":
                w = st.extra.get("shown", {}).get(x[1]) or self.dom.show(self.dom.getmask(st, x[1]))
                if set(w.split("|")) <= lts:
                    return True
                if w not in (" ", "U+0020", "U+0009", "<white space>"):
                    return False
        return False

    def report(self, st, kind, detail):
        place = "trivia" if any(x.fn.name == "skip_trivia" for x in st.extra.get("rf", ())) else ""
        k = "%s|%s|%s|%s" % (self.nt, kind, detail, place)
        if k in self.findings:
            return
        fns = {self.short(x.body.fn) for x in st.frames if x.body is not None}
        rfs = {x.fn.name for x in st.extra.get("rf", ())} | {st.extra.get("lastfn")}
        self.findings[k] = Finding(self.nt, kind, detail, self.trace(st), self.I.where(st) if st.frames else self.skey,
                                   {"fns": fns, "rfs": rfs, "line": self.lineprefix(st)})

    def canon(self, st):
        return LexCanon(self, st).key()

    # ------------------------------------------------------------------ driver
    def construct(self, st):
        """the look-ahead buffer may hold up to two characters on entry"""
        return [self.setup_lex(g, n, self.task[1]) for g in self.task[0] for n in (0, 1, 2)]

    def setup(self, nt, key, entry):
        return None

    def explore_lex(self, name, goal, mask):
        self.task = goal, mask
        f = self.ref.setdefault(name, self.ref["lex_next"])
        f.opts["entry"] = "lex"
        self.explore1(name, self.skey, {})

    def step(self, st):
        try:
            return self.step1(st)
        except Elsewhere:
            return []


def lift(v, side):
    """literal string values in the form of composed ones"""
    if type(v) is str:
        return ("S", None, tuple(map(ord, v)))
    if type(v) is not tuple or not v:
        return v
    h = v[0]
    if h == "A":
        fs = tuple(lift(x, side) for x in v[3])
        return v if fs == v[3] else v[:3] + (fs,)
    if h == "T" and side == 0:
        fs = tuple(lift(x, side) for x in v[1])
        return v if fs == v[1] else ("T", fs)
    if h == "T" and v[1] and v[1][0] == "tok":
        _, kind, val, kw = v[1]
        if val[1][0] == "Str":
            val = ("T", ("Str", lift(val[1][1], side)))
        kw = tuple((k, lift(x, side)) for k, x in kw)
        return ("T", ("tok", kind, val, kw))
    if h == "V":
        fs = tuple(lift(x, side) for x in v[2])
        return v if fs == v[2] else v[:2] + (fs,)
    if h == "R" and v[1][0] == "V":
        w = lift(v[1][1], side)
        return v if w is v[1][1] else ("R", ("V", w), v[2])
    if h == "ret":
        return ("ret", lift(v[1], side))
    return v


def unlift(v):
    if type(v) is not tuple or not v:
        return v
    if v[0] == "S" and v[1] is None and all(type(x) is int for x in v[2]):
        return mkstr(None, v[2])
    r = tuple(unlift(x) if type(x) is tuple else x for x in v)
    return v if r == v else r


def ctrbase(v):
    """(base symbol, offset) of a counter value; (None, n) for a number"""
    if type(v) is int:
        return None, v
    l = lin(v)
    if l is not None and len(l[0]) == 1 and l[0][0][1] == 1:
        t = l[0][0][0]
        if t[0] == "sym" and type(t[1]) is tuple and t[1][0] == "ctr":
            return t, l[1]
    return False, 0


class LexCanon:
    GAP = 2
    SMALL = 1

    def __init__(self, prod, st):
        self.p, self.st = prod, st

    # ---------------------------------------------------------------- access to all live values
    def refresh(self):
        return [(g(), s) for g, s in self.acc]

    def values(self):
        """(value, setter) for every live slot"""
        st = self.st
        out = []
        e = st.extra
        owned, names = [], []
        live = [None if f.body is None else self.live(f) for f in st.frames]
        # locals somebody still holds a reference to
        todo = [f.data for f in st.frames if f.body is None] + [st.heap["P"]] + [e.get(k) for k in ("iev", "rev", "raw", "braces")]
        for f, L in zip(st.frames, live):
            if L is not None:
                todo.extend(f.loc[k] for k in L if k in f.loc)
        while todo:
            v = todo.pop()
            if type(v) is not tuple or not v:
                continue
            if v[0] == "R" and len(v) == 3:
                r = v[1]
                if r[0] == "L":
                    L = live[r[1]] if r[1] < len(live) else None
                    if L is not None and r[2] not in L:
                        L.add(r[2])
                        todo.append(st.frames[r[1]].loc.get(r[2]))
                    continue
            todo.extend(x for x in v if type(x) is tuple)
        for i, f in enumerate(st.frames):
            if f.body is None:
                owned.append(False)
                names.append("")
                out.append((lambda f=f: f.data, lambda v, f=f: setattr(f, "data", v)))
                continue
            for k in list(f.loc):
                if k not in live[i] or f.loc[k] is None:
                    del f.loc[k]
            for k in sorted(f.loc):
                names.append("")
                owned.append("String" in str(self.p.P.types[f.body.locals[k][0]].get("p")))
                out.append((lambda f=f, k=k: f.loc[k], lambda v, f=f, k=k: f.loc.__setitem__(k, v)))
        owned.append(False)
        names.append("P")
        out.append((lambda: st.heap["P"], lambda v: st.heap.__setitem__("P", v)))
        n = len(out)
        e["rf"] = [f.copy() for f in e["rf"]]
        for f in e["rf"]:
            lv = f.fn.live[f.pc]
            f.env = {k: v for k, v in f.env.items() if k in lv}
            for k in sorted(f.env):
                names.append("rf:" + k)
                out.append((lambda f=f, k=k: f.env[k], lambda v, f=f, k=k: f.env.__setitem__(k, v)))
        for k in ("pos", "start", "raw", "braces", "rev", "iev"):
            out.append((lambda k=k: e.get(k), lambda v, k=k: e.__setitem__(k, v)))
        self.names = names + ["pos", "start", "raw", "braces", "rev", "iev"]
        self.owned = owned + [True] * (len(out) - n - 6) + [False, False, True, False, False, False]
        self.sides = [0] * n + [1] * (len(out) - n - 1) + [0]
        self.acc = out
        return self.refresh()

    def live(self, f):
        b = f.body
        li = b.liveness()
        t = b.blocks[f.bb][1]
        if t[0] == "call":
            tgt = t[4]
            L = set(li[tgt]) if tgt >= 0 else set()
            if len(t[3]) == 1:
                L.discard(t[3][0])
        else:
            L = set(li[f.bb])
        return L

    def key(self):
        self.shown()
        fs = [f.fn.name for f in self.st.extra["rf"] if f.fn.name not in ("lex_next", "skip_trivia", "multi_line_comment")]
        if fs:
            self.st.extra["lastfn"] = fs[0]
        if any(f.fn.name in FREETEXT for f in self.st.extra["rf"]):
            self.st.extra["ft"] = 1
        self.settle()
        self.slots = self.values()
        self.counters()
        self.chars()
        if self.freetext():
            a = "pos" if self.st.extra["rev"] and self.st.extra["rev"][0] == "fail" else self.p.aspect
            if a in ("pos", "raw", "cooked"):
                self.notext(a)
        self.common()
        self.strings()
        st, e = self.st, self.st.extra
        parts = []
        ren = {}
        base = e["rc"]

        def c(v):
            t = type(v)
            if t is not tuple:
                return v if t is int or t is str or v is None else str(v)
            if not v:
                return v
            if v[0] == "ch" and len(v) == 2 and type(v[1]) is int:
                k = v[1]
                if k >= base:
                    return ("ch", k - base)
                r = ren.get(v)
                if r is None:
                    r = ren[v] = ("old", len(ren))
                return r
            if v[0] == "sym" and type(v[1]) is not str:
                r = ren.get(v)
                if r is None:
                    r = ren[v] = ("sym", len(ren))
                return r
            if v[0] == "sum" and len(v[1]) > 1:
                return ("sum", tuple(sorted(((c(a), b) for a, b in v[1]), key=repr)), v[2])
            return tuple(c(x) for x in v)

        for f in st.frames:
            if f.body is None:
                parts.append(("n", f.native, c(f.data), f.dest, f.target))
            else:
                parts.append((f.body.key, f.bb, f.dest, f.target, tuple((k, c(f.loc[k])) for k in sorted(f.loc))))
        parts.append(c(st.heap["P"]))
        for f in e["rf"]:
            parts.append((f.fn.name, f.pc, f.dst, tuple((k, c(v)) for k, v in sorted(f.env.items()))))
        for k in ("pos", "start", "raw", "braces", "iev", "rev", "rnl"):
            parts.append(c(e.get(k)))
        parts.append(e["ic"] - e["rc"])
        fs = []
        for t, f in list(st.facts.items()):
            if t[0] == "tok" and type(t[1]) is int:
                if t[1] >= base:
                    fs.append((("tok", t[1] - base), f))
                elif ("ch", t[1]) in ren:
                    fs.append((("tok", ren[("ch", t[1])]), f))
                elif t[1] < base - 1:
                    del st.facts[t]
                continue
            if self.alive(t, ren):
                fs.append((c(t), f if type(f) is int else (f[0], tuple(sorted(f[1], key=repr))) if type(f) is tuple and len(f) == 2
                           and type(f[1]) is frozenset else f))
            else:
                del st.facts[t]
        parts.append(tuple(sorted(fs, key=repr)))
        return tuple(parts)

    def settle(self):
        """once one side has rejected, only whether the other does matters"""
        st, e = self.st, self.st.extra
        if e["iev"] and e["iev"][0] == "err":
            st.frames = []
            e["iev"] = ("err",)
            st.heap["P"] = ("A", SCANNER, 0, tuple(0 for _ in st.heap["P"][3]))
        if e["rev"] and e["rev"][0] == "fail":
            e["rev"] = ("fail",)
            e["rf"] = []
            n = self.p.consumed(st)
            e["rc"] = max(e["rc"], e["ic"] if n is None else n)
            e["start"] = None
            e["raw"] = None
            e["pos"] = (0, 0, 0)
            e["rnl"] = 0
            e["braces"] = None

    def shown(self):
        """remember how characters looked before their classes are forgotten"""
        st, dom = self.st, self.p.dom
        sh = dict(st.extra.get("shown", ()))
        for k in range(st.extra["rc"]):
            if k not in sh and ("tok", k) in st.facts:
                sh[k] = dom.show(st.facts[("tok", k)])
        st.extra["shown"] = sh

    def alive(self, t, ren):
        if type(t) is not tuple:
            return True
        if t and t[0] == "ch" and len(t) == 2 and type(t[1]) is int:
            return t in ren or t[1] >= self.st.extra["rc"]
        if t and t[0] == "sym":
            return type(t[1]) is str or t in ren
        return all(self.alive(x, ren) for x in t)

    # ---------------------------------------------------------------- counters
    def counters(self):
        st, p = self.st, self.p
        e = st.extra
        def noerr(v):
            if type(v) is not tuple or not v:
                return v
            if v[0] == "A" and v[1] == "errors::errors::Error":
                return v[:3] + (tuple(0 if ctrbase(x)[0] is not False else x for x in v[3]),)
            return tuple(noerr(x) if type(x) is tuple else x for x in v)
        for v, setv in self.slots:
            if type(v) is tuple and "errors::errors::Error" in repr(v):
                setv(noerr(v))
        self.slots = self.refresh()
        if p.aspect in TEXTUAL or e["rev"] and e["rev"][0] == "fail":
            return self.nocounters()
        # groups of related values: symbolic ones anywhere, numbers only in the scanner's fields and the reference position
        vals = {}

        failing = e["rev"] is not None and e["rev"][0] == "fail"

        def add(v):
            b, k = ctrbase(v)
            if b is not False:
                vals.setdefault(b, set()).add(k)

        def scan(v):
            if type(v) is tuple and v:
                b, k = ctrbase(v)
                if b is not False and b is not None:
                    vals.setdefault(b, set()).add(k)
                    return
                for x in v:
                    if type(x) is tuple:
                        scan(x)
        for v, _ in self.slots:
            scan(v)
        names = p.sfields()
        fields = [(i, x) for i, (n, x) in enumerate(zip(names, st.heap["P"][3])) if n in COUNTERS + STARTS]
        for _, x in fields:
            add(x)
        if not failing:
            for x in e["pos"] + (e["start"][:3] if e["start"] else ()):
                add(x)
        # the position the token started at is nobody's counter any more
        begun = set()
        if e["start"] or failing:
            cur = {x for (i, x) in fields if names[i] in COUNTERS} | set(e["pos"])
            begun = {ctrbase(x) for (i, x) in fields if names[i] in STARTS and x not in cur}
        # clusters
        m = {}
        for b, ks in vals.items():
            cur, last = None, None
            for k in sorted(ks):
                if (b, k) in begun:
                    st.nid += 1
                    m[(b, k)] = ("sym", ("ctr", st.nid))
                    continue
                if last is None or k - last > self.GAP:
                    # positions just after a line terminator stay numbers
                    if b is None and k <= self.SMALL:
                        cur = None
                    else:
                        st.nid += 1
                        cur = (("sym", ("ctr", st.nid)), k)
                m[(b, k)] = mklin(((cur[0], 1),), k - cur[1]) if cur else k
                last = k

        def sub(v):
            if type(v) is not tuple or not v:
                return v
            b, k = ctrbase(v)
            if b is not False and b is not None:
                return m[(b, k)]
            return tuple(sub(x) if type(x) is tuple else x for x in v)

        def one(v):
            b, k = ctrbase(v)
            return m.get((b, k), v) if b is not False else v
        for v, setv in self.slots:
            if type(v) is tuple:
                setv(sub(v))
        s = list(st.heap["P"][3])
        for i, x in fields:
            if type(x) is int:
                s[i] = one(x)
        st.heap["P"] = st.heap["P"][:3] + (tuple(s),)
        if not failing:
            e["pos"] = tuple(one(x) if type(x) is int else x for x in e["pos"])
        if e["iev"] and e["iev"][0] == "ret" and type(e["iev"][1]) is tuple and e["iev"][1][:2] == ("A", TOKEN):
            t = e["iev"][1]
            fn = [n for n, _ in p.P.adts[TOKEN]["v"][0]["f"]]
            e["iev"] = ("ret", t[:3] + (tuple(one(x) if type(x) is int and fn[i] in TOKPOS else x for i, x in enumerate(t[3])),))
        if e["start"]:
            e["start"] = tuple(one(x) if type(x) is int else x for x in e["start"][:3]) + e["start"][3:]
        self.slots = self.refresh()

    def nocounters(self):
        """positions are another task's"""
        st, p = self.st, self.p
        e = st.extra
        any_ = ("sym", ("ctr", "*"))

        def sub(v):
            if type(v) is not tuple or not v:
                return v
            b, k = ctrbase(v)
            if b is not False and b is not None:
                return any_
            return tuple(sub(x) if type(x) is tuple else x for x in v)
        for v, setv in self.slots:
            if type(v) is tuple:
                setv(sub(v))
        names = p.sfields()
        flag = ("sym", "f:*")
        st.heap["P"] = st.heap["P"][:3] + (tuple(any_ if n in COUNTERS + STARTS else flag if n in ("newline", "start_newline") else x
                                                 for n, x in zip(names, st.heap["P"][3])),)
        e["pos"] = (any_,) * 3
        e["rnl"] = 0
        if e["start"]:
            e["start"] = (any_,) * 3 + (0,) + e["start"][4:]
        self.slots = self.refresh()

    def rawfield(self):
        """the scanner's own text under construction"""
        p = self.p
        return [i for i, x in enumerate(self.st.heap["P"][3]) if p.ftype(i).get("p") == "std::string::String"]

    def notext(self, aspect):
        """texts are another task's"""
        st, p, dom = self.st, self.p, self.p.dom
        star = ("sym", ("s", "*"))
        used = []

        def blank(it):
            m = 0
            for x in it:
                m |= dom.vmask(st, x)
            if m & ~dom.DIG[16]:
                used.append(1)
                return star
            return None

        def sub(v, side, top=False):
            if type(v) is str and top:
                return (blank(tuple(map(ord, v))) or v) if v else v
            if type(v) is not tuple or not v:
                return v
            h = v[0]
            if h == "S" and v[1] is None:
                return blank(v[2]) or v
            if h == "sym" and type(v[1]) is tuple and v[1][0] == "s":
                return blank((("sub", v),)) or v
            if h in ("app", "bin"):
                return v
            if h == "A":
                if v[1] == SCANNER and aspect in ("raw", "cooked"):
                    return v[:3] + (tuple(sub(x, side, True) if (i in raws) == (aspect == "cooked") else x
                                          for i, x in enumerate(v[3])),)
                if v[1] == TOKEN and aspect in ("raw", "cooked"):
                    return v
                return v[:3] + (tuple(sub(x, side, True) for x in v[3]),)
            if h == "T" and v[1] and v[1][0] == "tok":
                return v
            return tuple(sub(x, side) if type(x) is tuple else x for x in v)
        raws = self.rawfield()
        fields = st.heap["P"][3]
        recording = any(fields[i] != "" for i in raws)
        for (v, setv), side, str_, name in zip(self.slots, self.sides, self.owned, self.names):
            if aspect == "cooked" and name not in ("P", "raw"):
                continue
            if aspect == "raw" and (name in ("raw", "rf:raw") or side == 0 and name != "P" and not recording):
                continue
            if v is not None:
                setv(sub(v, side, str_))
        if used:
            st.facts[("cs", star)] = dom.CHARS
        self.slots = self.refresh()

    # ---------------------------------------------------------------- computed characters
    def leaves(self, t, out):
        if type(t) is tuple and t:
            if t[0] in ("ch", "sub", "sym") and len(t) == 2 and (type(t[1]) is int or t[0] != "ch"):
                out.add(t)
                return
            for x in t:
                if type(x) is tuple:
                    self.leaves(x, out)

    def chars(self):
        """a character computed from digits nobody looks at any more becomes a symbol of its own"""
        st = self.st
        comp = set()
        other = set()

        def scan(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == "ch" and len(v) == 2:
                if type(v[1]) is tuple and v[1] and v[1][0] != "sym":
                    comp.add(v)
                else:
                    other.add(v)
                return
            if v[0] in ("sub", "sym") and len(v) == 2:
                other.add(v)
                return
            for x in v:
                if type(x) is tuple:
                    scan(x)
        raws = self.rawfield() if self.p.aspect == "raw" and self.freetext() else ()
        for (v, _), name in zip(self.slots, self.names):
            if raws and name in ("raw", "rf:raw"):
                continue
            if raws and name == "P":
                v = v[:3] + (tuple(x for i, x in enumerate(v[3]) if i not in raws),)
            scan(v)
        if not comp:
            return
        lv = {}
        for t in comp:
            lv[t] = set()
            self.leaves(t[1], lv[t])
        base = st.extra["rc"]
        ren = {}
        for t in sorted(comp, key=repr):
            if lv[t] & other or any(lv[t] & lv[u] for u in comp if u != t):
                continue
            if any(x[0] == "ch" and type(x[1]) is int and x[1] >= base for x in lv[t]):
                continue
            st.nid += 1
            sym = ("sym", ("c", st.nid))
            dom = self.p.dom
            m = dom.vmask(st, t)
            st.facts[("tok", sym)] = next(x for x in (dom.IDSTART, dom.IDPART, dom.CHARS) if not m & ~x)
            ren[t] = ("ch", sym)
        if not ren:
            return

        def sub(v):
            if type(v) is not tuple or not v:
                return v
            r = ren.get(v) if v[0] == "ch" else None
            if r is not None:
                return r
            if v[0] == "ch" and len(v) == 2:
                return v
            if v[0] == "S":
                return mkstr(v[1], tuple(sub(x) for x in v[2]))
            return tuple(sub(x) if type(x) is tuple else x for x in v)
        for v, setv in self.slots:
            if type(v) is tuple:
                setv(sub(v))
        for t in list(st.facts):
            if type(t) is tuple and t[0] == "word":
                f = st.facts.pop(t)
                st.facts[sub(t)] = f
        self.slots = self.refresh()

    # ---------------------------------------------------------------- strings
    def strings(self):
        st, p, dom = self.st, self.p, self.p.dom
        e = st.extra
        occ = []
        pinned = set()

        def pin(v):
            if type(v) is tuple and v:
                if v[0] in ("ch", "sub") and len(v) == 2:
                    pinned.add(v)
                for x in v:
                    if type(x) is tuple:
                        pin(x)

        def scan(v):
            if type(v) is not tuple or not v:
                return
            if v[0] == "S":
                occ.append(v)
                for x in v[2]:
                    if type(x) is tuple and x[0] == "ch" and type(x[1]) is not int and x[1][0] != "sym":
                        pin(x[1])
                return
            if v[0] == "ch" and len(v) == 2:
                pinned.add(v)
                if type(v[1]) is not int and v[1][0] != "sym":
                    pin(v[1])
                return
            if v[0] == "app" or v[0] == "bin":
                pin(v)
                return
            for x in v:
                scan(x)
        for v, _ in self.slots:
            scan(v)
        for t in st.facts:
            if type(t) is tuple and t[0] == "word":
                pin(t[1])
            elif type(t) is tuple and t[0] in ("app", "bin") and self.pending(t):
                pin(t)
        for v in occ:
            if v[1] is not None:
                return
        seqs = sorted({v[2] for v in occ}, key=repr)
        if not seqs:
            return

        def unique(x):
            return type(x) is tuple and (x[0] == "sub" or x[0] == "ch" and (type(x[1]) is int or x[1][0] == "sym"))
        succ, pred = {}, {}
        for s in seqs:
            for i, x in enumerate(s):
                if unique(x):
                    succ.setdefault(x, set()).add(s[i + 1] if i + 1 < len(s) else None)
                    pred.setdefault(x, set()).add(s[i - 1] if i else None)

        def free(x):
            return x not in pinned and not (type(x) is tuple and x[0] == "ch" and type(x[1]) is int and x[1] >= e["rc"])

        # blocks per sequence: maximal runs glued the same way in every occurrence
        def glued(a, b):
            if not free(a) or not free(b):
                return False
            ua, ub = unique(a), unique(b)
            if not ua and not ub:
                return None
            if ua and succ[a] != {b}:
                return False
            if ub and pred[b] != {a}:
                return False
            return True
        mapping = {}
        newseq = {}
        for s in seqs:
            out = []
            i = 0
            while i < len(s):
                run = [s[i]]
                j = i + 1
                while j < len(s):
                    g = glued(s[j - 1], s[j])
                    if g is None:
                        # two characters without identity: joined when what precedes them in the run fixes them
                        if not any(unique(x) for x in run):
                            break
                        if not self.fixed(run, s[j], seqs, unique):
                            break
                    elif not g:
                        break
                    run.append(s[j])
                    j += 1
                i = j
                out.append(tuple(run))
            newseq[s] = out
        blocks = {}
        for s in seqs:
            for run in newseq[s]:
                if any(unique(x) for x in run) and all(free(x) for x in run):
                    if len(run) == 1 and (run[0][0] == "sub" or dom.single(dom.vmask(st, run[0])) is not None):
                        continue
                    blocks.setdefault(run, None)
        for run in list(blocks):
            mapping[run] = self.textsym(run)
        if not mapping:
            return
        res = {}
        for s in seqs:
            out = []
            for run in newseq[s]:
                if run in mapping:
                    out.append(mapping[run])
                else:
                    out.extend(run)
            res[s] = mkstr(None, tuple(out)) if not all(type(x) is tuple and x[0] == "sub" for x in out) else ("S", None, tuple(out))

        def sub(v):
            if type(v) is not tuple or not v:
                return v
            if v[0] == "S":
                return res.get(v[2], v)
            if v[0] == "app" or v[0] == "bin":
                return v
            return tuple(sub(x) if type(x) is tuple else x for x in v)
        for v, setv in self.slots:
            if type(v) is tuple:
                setv(sub(v))

    def pending(self, t):
        """mentions a character the reference has not consumed yet"""
        if type(t) is not tuple or not t:
            return False
        if t[0] == "ch" and len(t) == 2 and type(t[1]) is int:
            return t[1] >= self.st.extra["rc"]
        return any(self.pending(x) for x in t)

    def textsym(self, run):
        """a symbol for a text, with what is known of its characters"""
        st, dom = self.st, self.p.dom
        st.nid += 1
        sym = ("sym", ("s", st.nid))
        m = 0
        has = []
        for x in run:
            cm = dom.vmask(st, x)
            m |= cm
            if type(x) is tuple and x[0] == "sub":
                has.extend(st.facts.get(("has", x[1]), ()))
            else:
                has.append(cm)
        lv = dom.level(m)
        if m & ~dom.DIG[16] and self.freetext():
            lv = dom.CHARS
        st.facts[("cs", sym)] = lv
        if m & ~dom.DIG[10]:
            sh = dom.shape(st, run)
            if sh is not None:
                st.facts[("shape", sym)] = sh
        if lv == dom.DIG[10]:
            h = {dom.DIG[10] & ~dom.DIG[8] for x in has if not x & dom.DIG[8]}
            if h:
                st.facts[("has", sym)] = tuple(h)
        return ("sub", sym)

    def freetext(self):
        return self.st.extra.get("ft", 0)

    def common(self):
        """text that strings of both sides start with becomes a symbol"""
        st, dom = self.st, self.p.dom
        e = st.extra
        if not self.freetext():
            return
        for (v, setv), side in zip(self.slots, self.sides):
            w = lift(v, side)
            if w is not v:
                setv(w)
        self.slots = self.refresh()
        self.literal()
        self.common1()
        for (v, setv) in self.slots:
            w = unlift(v)
            if w is not v:
                setv(w)
        self.slots = self.refresh()

    def literal(self):
        """consumed characters determined by their class"""
        st, dom = self.st, self.p.dom
        base = st.extra["rc"]

        def sub(v):
            if type(v) is not tuple or not v:
                return v
            if v[0] == "ch" and len(v) == 2 and (type(v[1]) is not int or v[1] < base):
                x = dom.single(dom.vmask(st, v))
                return v if x is None else x
            return tuple(sub(x) if type(x) is tuple else x for x in v)
        for v, setv in self.slots:
            if type(v) is tuple:
                w = sub(v)
                if w != v:
                    setv(w)
        self.slots = self.refresh()

    def common1(self):
        self.empties = False
        st, dom = self.st, self.p.dom
        e = st.extra
        occ = (set(), set())
        pinned = set()

        def pin(v):
            if type(v) is tuple and v:
                if v[0] in ("ch", "sub") and len(v) == 2:
                    pinned.add(v)
                for x in v:
                    if type(x) is tuple:
                        pin(x)

        def scan(v, side):
            if type(v) is not tuple or not v:
                return
            if v[0] == "S":
                if v[1] is None and not v[2]:
                    self.empties = True
                elif v[1] is None:
                    occ[side].add(v[2])
                else:
                    pin(v)
                return
            if v[0] in ("app", "bin") or v[0] == "ch" and len(v) == 2:
                pin(v)
                return
            for x in v:
                scan(x, side)
        for (v, _), side in zip(self.slots, self.sides):
            scan(v, side)
        for t in st.facts:
            if type(t) is tuple and t[0] == "word":
                pin(t[1])
            elif type(t) is tuple and t[0] in ("app", "bin") and self.pending(t):
                pin(t)

        def lcp(a, b):
            n = 0
            for x, y in zip(a, b):
                if x != y:
                    break
                n += 1
            return n
        links = {}
        for i in (0, 1):
            for s in occ[i]:
                ls = [(lcp(s, r), r) for r in occ[1 - i]]
                best = max([n for n, _ in ls], default=0)
                if best:
                    for n, r in ls:
                        if n == best:
                            links.setdefault((i, s), set()).add((1 - i, r))
                            links.setdefault((1 - i, r), set()).add((i, s))
        done = set()
        res = ({}, {})
        for a in sorted(links, key=repr):
            if a in done:
                continue
            comp, todo = [], [a]
            done.add(a)
            while todo:
                x = todo.pop()
                comp.append(x)
                for y in links[x]:
                    if y not in done:
                        done.add(y)
                        todo.append(y)
            p = comp[0][1]
            for _, x in comp:
                p = p[:lcp(p, x)]
            # a string that is still empty may be about to get the same literal
            if all(type(y) is int for y in p) and self.empties:
                p = p[:min(len(x) - 1 for _, x in comp)]
            n = 0
            # a character still pending elsewhere keeps its identity, except in what both sides have recorded already
            while n < len(p) and (p[n] not in pinned or self.p.aspect == "raw") and not (type(p[n]) is tuple and p[n][0] == "ch" and type(p[n][1]) is int
                                                             and p[n][1] >= e["rc"]):
                n += 1
            p = p[:n]
            # the same text inside strings without counterpart
            uniq = [k for k, x in enumerate(p) if type(x) is tuple]
            inner = {}
            for i in (0, 1):
                for s in occ[i]:
                    if (i, s) in links or not p:
                        continue
                    for k in uniq:
                        if k < len(p) and p[k] in s:
                            o = s.index(p[k]) - k
                            n = lcp(s[o:], p) if o >= 0 else 0
                            p = p[:n]
                            inner[(i, s)] = o
                            break
            if not p or len(p) == 1 and (type(p[0]) is tuple and p[0][0] == "sub" or not self.freetext()):
                continue
            sym = self.textsym(p)
            for i, x in comp:
                res[i][x] = ("S", None, (sym,) + x[len(p):])
            for (i, x), o in inner.items():
                if x not in res[i]:
                    res[i][x] = ("S", None, x[:o] + (sym,) + x[o + len(p):])
        if not res[0] and not res[1]:
            return

        def sub(v, m):
            if type(v) is not tuple or not v:
                return v
            if v[0] == "S":
                return m.get(v[2], v) if v[1] is None else v
            if v[0] == "app" or v[0] == "bin":
                return v
            return tuple(sub(x, m) if type(x) is tuple else x for x in v)
        for (v, setv), side in zip(self.slots, self.sides):
            if type(v) is tuple:
                setv(sub(v, res[side]))
        self.slots = self.refresh()

    def fixed(self, run, x, seqs, unique):
        """wherever the last identified character of run occurs, the same characters up to x follow it"""
        for i in range(len(run) - 1, -1, -1):
            if unique(run[i]):
                a, tail = run[i], tuple(run[i + 1:]) + (x,)
                break
        for s in seqs:
            for k, y in enumerate(s):
                if y == a and s[k + 1:k + 1 + len(tail)] != tail:
                    return False
        return True
