"""Token domain: finite classes of tokens, with every observation of a token evaluated class by class."""
from .interp import is_term
from spec import tokens as T

TOKEN = "token::token::Token"
TOKTYPE = "token::token::TokenType"
VALUE = "token::value::Value"
PUNC = "token::punctuators::Punctuator"
OPT = "std::option::Option"


class TokenDomain:
    """atoms: ('P', variant) ('K', word) ('I', word|None) ('S', word|None) ('N',) ('T', head, tail) ('R',) ('Z',) null
    ('B', word) ('E',) eof ('X',) scan error"""

    def __init__(self, prog, words):
        self.P = prog
        ad = prog.adts
        self.tv = {v["n"]: i for i, v in enumerate(ad[TOKTYPE]["v"])}
        self.vv = {v["n"]: i for i, v in enumerate(ad[VALUE]["v"])}
        self.pv = {v["n"]: i for i, v in enumerate(ad[PUNC]["v"])}
        self.tokfields = [f[0] for f in ad[TOKEN]["v"][0]["f"]]
        self.words = sorted(w for w in words if w not in T.KEYWORDS and w not in T.LITERAL_WORDS)
        at = []
        for n in self.pv:
            if n in T.PUNCT:
                at.append(("P", n))
        for w in T.KEYWORDS:
            at.append(("K", w))
        for w in self.words:
            at.append(("I", w))
        at.append(("I", None))
        sw = sorted(set(words) | set(T.KEYWORDS))
        for w in sw:
            at.append(("S", w))
        at.append(("S", None))
        at.append(("N",))
        for h in (1, 0):
            for t in (1, 0):
                at.append(("T", h, t))
        at += [("R",), ("Z",), ("B", "true"), ("B", "false"), ("E",), ("X",)]
        self.atoms = at
        self.idx = {a: i for i, a in enumerate(at)}
        self.ALL = (1 << len(at)) - 1
        self.ERR = 1 << self.idx[("X",)]
        self.EOF = 1 << self.idx[("E",)]
        self.WORDY = self.mask(lambda a: a[0] in "KIZB" or a[0] == "S" and a[1] is not None)
        self.SLASHY = self.mask(lambda a: a in (("P", "Slash"), ("P", "SlashAssign"), ("R",), ("X",)))
        self.text2punc = {t: n for n, t in T.PUNCT.items()}
        self._tab = {}

    def mask(self, pred):
        m = 0
        for i, a in enumerate(self.atoms):
            if pred(a):
                m |= 1 << i
        return m

    # ---------------------------------------------------------------- per-atom observations
    def type_of(self, a):
        k = a[0]
        n = {"P": "Punctuator", "K": "Keyword", "I": "Identifier", "S": "StringLiteral", "N": "NumericLiteral",
             "T": "Template", "R": "RegularExpression", "Z": "NullLiteral", "B": "BooleanLiteral", "E": "Eof",
             "X": "Eof"}[k]
        return self.P.discr[TOKTYPE][self.tv[n]]

    def value_of(self, a):
        n = {"P": "Punc", "N": "Num", "Z": "Null", "E": "Null", "X": "Null"}.get(a[0], "Str")
        return self.P.discr[VALUE][self.vv[n]]

    def punc_of(self, a):
        return self.P.discr[PUNC][self.pv[a[1]]] if a[0] == "P" else None

    def text_of(self, a):
        """exact text, or None when the class does not determine it"""
        if a[0] in "KB":
            return a[1]
        if a[0] == "P":
            return T.PUNCT.get(a[1])
        if a[0] in "IS":
            return a[1]
        return None

    def strdet(self, a, c):
        """does the text equal c? True/False/None (not determined)"""
        t = self.text_of(a)
        if t is not None:
            return t == c
        if a[0] == "I":
            if not c.isidentifier() or c in T.KEYWORDS or c in T.LITERAL_WORDS:
                return False
            return False if c in self.words else None
        if a[0] == "R" and not c.startswith("/"):
            return False
        if a[0] == "S":
            return False if ("S", c) in self.idx else None
        return None

    def table(self, kind):
        """observation -> {value: mask}"""
        t = self._tab.get(kind)
        if t is None:
            t = {}
            for i, a in enumerate(self.atoms):
                k = kind[0]
                if k == "type":
                    v = self.type_of(a)
                elif k == "value":
                    v = self.value_of(a)
                elif k == "punc":
                    v = self.punc_of(a)
                elif k == "head":
                    v = a[1] if a[0] == "T" else None
                elif k == "tail":
                    v = a[2] if a[0] == "T" else None
                elif k == "isT":
                    v = int(a[0] == "T")
                elif k == "isR":
                    v = int(a[0] == "R")
                elif k == "isS":
                    v = int(a[0] == "S")
                elif k == "str":
                    v = self.strdet(a, kind[1])
                    v = None if v is None else int(v)
                t[v] = t.get(v, 0) | (1 << i)
            self._tab[kind] = t
        return t

    def getmask(self, st, k):
        return st.facts.get(("tok", k), self.ALL)

    def setmask(self, st, k, m):
        st.facts[("tok", k)] = m

    def token_value(self, k):
        fs = []
        for f in self.tokfields:
            if f == "tokentype":
                fs.append(("tokty", k))
            elif f == "value":
                fs.append(("tokval", k))
            elif f == "newline":
                fs.append(("nl", k))
            else:
                fs.append(("tokattr", k, f))
        return ("A", TOKEN, 0, tuple(fs))

    # ---------------------------------------------------------------- domain interface
    def field(self, I, st, v, var, i):
        if v[0] == "tokval":
            n = [x for x, j in self.vv.items() if j == var][0]
            if n == "Str":
                return ("tokstr", v[1])
            if n == "Punc":
                return ("tokpunc", v[1])
            if n == "Num":
                return ("toknum", v[1])
        return None

    def adt_of(self, I, st, v):
        if v[0] == "tokty":
            return TOKTYPE
        if v[0] == "tokval":
            return VALUE
        if v[0] == "tokpunc":
            return PUNC
        if v[0] == "tokattr":
            return None
        for t, f in st.facts.items():
            if type(t) is tuple and t[0] == "discr" and t[1] == v:
                return t[2]
        return None

    OPTATTR = {"head": "isT", "tail": "isT", "cooked": "isT", "pattern": "isR", "flags": "isR", "octal": None}

    def discr(self, I, st, v, adt):
        if v[0] == "tokty":
            return ("tab", v[1], ("type",))
        if v[0] == "tokval":
            return ("tab", v[1], ("value",))
        if v[0] == "tokpunc":
            return ("tab", v[1], ("punc",))
        if v[0] == "tokattr" and self.OPTATTR.get(v[2]):
            return ("tab", v[1], (self.OPTATTR[v[2]],))
        return None

    def norm(self, v):
        """terms that are observations of a token class"""
        if type(v) is tuple and v and v[0] == "fld" and v[1][0] == "tokattr" and v[1][2] in ("head", "tail"):
            return ("tab", v[1][1], (v[1][2],))
        return v

    def eq(self, I, st, a, b):
        for x, y in ((a, b), (b, a)):
            if type(x) is tuple and x and x[0] == "tab":
                if type(y) is int:
                    return ("bin", "Eq", x, y)
                if type(y) is tuple and y and y[0] == "tab" and y[1] == x[1] and y[2] == x[2]:
                    return 1
        return None

    def cmp(self, I, st, op, a, b):
        if op in ("Lt", "Gt", "Le", "Ge") and type(a) is tuple and type(b) is tuple and a and b and \
                a[0] == b[0] == "tokattr" and {a[2], b[2]} == {"end_idx", "start"}:
            # a token ends before the next one starts; where they touch, both positions are the same
            if op in ("Gt", "Le"):
                a, b = b, a
            r = int(a[1] < b[1] if a[2] == "end_idx" else a[1] <= b[1])
            return r if op in ("Lt", "Gt") else 1 - r
        if type(a) is tuple and type(b) is tuple and a and b and a[0] == "tokattr" and b[0] == "tokattr" and \
                a[2] == b[2] == "line_num":
            x, y = a[1], b[1]
            if op in ("Lt", "Ge"):
                r = self._nlgt(y, x)
                neg = op == "Ge"
            else:
                r = self._nlgt(x, y)
                neg = op == "Le"
            if r is None:
                return None
            if type(r) is int:
                return 1 - r if neg else r
            return ("un", "Not", r) if neg else r
        return None

    def _nlgt(self, x, y):
        """line(x) > line(y)"""
        if x <= y:
            return 0
        return None

    def streq(self, I, st, a, b):
        if type(a) is str:
            a, b = b, a
        if type(b) is str and type(a) is tuple and a:
            if a[0] == "tokstr":
                return ("tab", a[1], ("str", b))
            if is_term(a):
                return ("bin", "Eq", ("strv", a), b)
        return None

    def textcases(self, I, st, v, fn):
        """a function of a token's text, decided class by class: [(state, value)]; value None: class of unknown texts"""
        k = v[1]
        m = self.getmask(st, k)
        groups = {}
        for i, a in enumerate(self.atoms):
            if m >> i & 1:
                t = self.text_of(a)
                r = None if t is None else fn(t)
                groups[r] = groups.get(r, 0) | 1 << i
        res = []
        items = sorted(groups.items(), key=repr)
        for i, (r, mk) in enumerate(items):
            s = st if i == len(items) - 1 else st.copy()
            if mk != m:
                self.setmask(s, k, mk)
            if r is None:
                s.extra["inexact"] = 1
            res.append((s, r))
        return res

    def split(self, I, st, term, targets):
        k = term[0]
        if k == "tab":
            return self.splittab(st, term[1], term[2], targets)
        if k == "fld":
            n = self.norm(term)
            if n is not term:
                return self.splittab(st, n[1], n[2], targets)
        if k == "bin" and term[1] == "Eq":
            a, b = term[2], term[3]
            if type(a) is tuple and a:
                if a[0] == "tab" and type(b) is int:
                    return [(int(v == b) if int(v == b) in targets else "otherwise", s)
                            for v, s in self.splittab(st, a[1], a[2], [b])]
                if a[0] == "strv":
                    return [(int(v == b) if int(v == b) in targets else "otherwise", s)
                            for v, s in I.split_fact(st, a, [b])]
        return None

    def splittab(self, st, k, kind, targets):
        m = self.getmask(st, k)
        if kind[0] == "str" and kind[1].isidentifier() is False:
            pass
        t = self.table(kind)
        groups = {}
        opaque = 0
        for v, mv in t.items():
            x = m & mv
            if not x:
                continue
            if v is None:
                opaque = x
                continue
            key = v if v in targets else "otherwise"
            groups[key] = groups.get(key, 0) | x
        if opaque:
            if kind[0] == "str":
                # text not determined by the class: both outcomes, remembered per token and constant
                f = st.facts.get(("strx", k, kind[1]))
                for v in (0, 1):
                    if f is not None and f != v:
                        continue
                    key = v if v in targets else "otherwise"
                    groups[key] = groups.get(key, 0) | opaque
            else:
                groups["otherwise"] = groups.get("otherwise", 0) | opaque
        res = []
        items = sorted(groups.items(), key=repr)
        for i, (key, mk) in enumerate(items):
            s = st if i == len(items) - 1 else st.copy()
            if mk != m:
                self.setmask(s, k, mk)
            if opaque and kind[0] == "str" and len(groups) > 1 and key != "otherwise" and mk & opaque:
                s.facts[("strx", k, kind[1])] = key
            res.append((key, s))
        return res

    def parsed(self, I, st, t):
        return None

    def charfn(self, I, st, name, args):
        if all(type(a) is int for a in args):
            from . import chars
            return chars.concrete(I, st, name, args)
        return [(st, ("app", name, tuple(args)))]

    def inset(self, I, st, w, cs):
        return None

    def next(self, I, st, r, it):
        return None

    def show(self, m):
        """human-readable class set"""
        r = self.showcache.get(m)
        if r is None:
            r = self.showcache[m] = self.show0(m)
        return r

    showcache = {}

    def show0(self, m):
        al = [self.atoms[i] for i in range(len(self.atoms)) if m >> i & 1]
        if len(al) > len(self.atoms) * 3 // 4:
            miss = [self.show1(self.atoms[i]) for i in range(len(self.atoms)) if not m >> i & 1]
            return "any" + (" but " + " ".join(miss) if miss else "")
        if len(al) > 8:
            kinds = {}
            for a in al:
                kinds.setdefault(a[0], []).append(a)
            return " ".join(self.show1(v[0]) if len(v) == 1 else "<%d %s>" % (len(v), {
                "P": "punctuators", "K": "keywords", "I": "identifiers", "S": "strings", "T": "templates"}.get(k, k))
                for k, v in kinds.items())
        return "|".join(self.show1(a) for a in al)

    def show1(self, a):
        k = a[0]
        if k == "P":
            return T.PUNCT.get(a[1], a[1])
        if k == "K" or k == "B":
            return a[1]
        if k == "I":
            return a[1] or "<identifier>"
        if k == "S":
            return '"%s"' % (a[1] or "<string>")
        if k == "T":
            return {(1, 1): "`t`", (1, 0): "`t${", (0, 1): "}t`", (0, 0): "}t${"}[a[1:]]
        return {"N": "<number>", "R": "<regexp>", "Z": "null", "E": "<eof>", "X": "<lexical error>"}[k]
