"""Character domain: finite classes of input characters (and end of input), with every test of a character evaluated
class by class; digit/radix arithmetic and string contents are kept symbolic."""
import unicodedata
from .interp import is_term, lin, mklin, Undecided
from .models import OPT, RES, NONE, some, ok, err, sparts, mkstr, UNIT
from spec import tokens as T

MAXC = 0x10FFFF
WS = (0x09, 0x0B, 0x0C, 0x20, 0xA0, 0xFEFF, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008,
      0x2009, 0x200A, 0x202F, 0x205F, 0x3000)
LT = (0x0A, 0x0D, 0x2028, 0x2029)
RUSTWS = (0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x20, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007,
          0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)


def idclass(c):
    """2 ID_Start, 1 ID_Continue only, 0 neither (a single known character)"""
    ch = chr(c)
    if ch == "_":
        return 1        # not ID_Start in Unicode's own table, but ID_Continue (Pc)
    if ch.isidentifier():
        return 2
    return 1 if ("a" + ch).isidentifier() else 0


class Atom:
    __slots__ = ("lo", "hi", "cls")

    def __init__(self, lo, hi, cls):
        self.lo, self.hi, self.cls = lo, hi, cls

    def exact(self):
        return self.lo if self.lo == self.hi else None


EOF_ATOM = "eof"


class LexDomain:
    def __init__(self, prog, words):
        self.P = prog
        cuts = set(WS) | set(LT) | {0x200C, 0x200D, 0x85} | set(RUSTWS)
        for x in self.constants(prog):
            if 0x7F < x <= MAXC:
                cuts.add(x)
        at = [Atom(c, c, idclass(c)) for c in range(0x80)]
        edges = sorted(c for c in cuts if c >= 0x80)
        pos = 0x80
        blocks = []
        for c in edges:
            if c > pos:
                blocks.append((pos, c - 1))
            if not 0xD800 <= c <= 0xDFFF:
                blocks.append((c, c))
            pos = c + 1
        blocks.append((pos, MAXC))
        split = []
        for lo, hi in blocks:
            for a, b in ((lo, min(hi, 0x7FF)), (max(lo, 0x800), min(hi, 0xD7FF)), (max(lo, 0xE000), min(hi, 0xFFFF)), (max(lo, 0x10000), hi)):
                if a <= b:
                    split.append((a, b))
        for lo, hi in split:
            if lo == hi:
                at.append(Atom(lo, hi, idclass(lo)))
            else:
                for k in (2, 1, 0):
                    at.append(Atom(lo, hi, k))
        self.atoms = at + [EOF_ATOM]
        n = len(self.atoms)
        self.ALL = (1 << n) - 1
        self.EOF = 1 << (n - 1)
        self.CHARS = self.ALL & ~self.EOF
        self.ERR = 0
        self.exactidx = {a.lo: i for i, a in enumerate(at) if a.lo == a.hi}
        self.words = sorted(words)
        self.wordset = frozenset(words)
        self._m = {}
        self.IDSTART = self.cmask(lambda a: a.cls == 2 or a.exact() in (0x24, 0x5F))
        self.IDPART = self.cmask(lambda a: a.cls >= 1 or a.exact() in (0x24, 0x5F, 0x200C, 0x200D))
        self.DIG = {r: self.cmask(lambda a, r=r: a.exact() is not None and digit(a.lo, r) is not None) for r in range(2, 37)}
        self.SETS = {"#ws": self.set(WS), "#lt": self.set(LT), "#idstart": self.IDSTART, "#idpart": self.IDPART,
                     "#dec": self.DIG[10], "#oct": self.DIG[8], "#hex": self.DIG[16], "#bin": self.DIG[2], "#eof": self.EOF}
        self.LEVELS = [self.DIG[2], self.DIG[8], self.DIG[10], self.DIG[16], self.CHARS]

    def constants(self, prog):
        out = set()

        def go(c):
            d = c.d
            if d["k"] == "int" and type(d.get("v")) is int:
                out.add(d["v"])
                out.add(d["v"] + 1)
        for fn, c in prog.consts(lambda n: "scanner" in n or "codepoint" in n):
            if type(c) is tuple:
                for v, _ in c[3]:
                    if type(v) is int:
                        out.add(v)
                        out.add(v + 1)
            else:
                go(c)
        return out

    # ---------------------------------------------------------------- masks
    def cmask(self, pred):
        m = 0
        for i, a in enumerate(self.atoms):
            if a is not EOF_ATOM and pred(a):
                m |= 1 << i
        return m

    def set(self, codes):
        m = 0
        for c in codes:
            m |= 1 << self.exactidx[c]
        return m

    def atom_of(self, c):
        """mask of the class of a concrete character"""
        i = self.exactidx.get(c)
        if i is not None:
            return 1 << i
        k = idclass(c)
        for i, a in enumerate(self.atoms):
            if a is not EOF_ATOM and a.lo <= c <= a.hi and a.cls == k:
                return 1 << i
        return 0

    def getmask(self, st, k):
        m = st.facts.get(("tok", k))
        if m is None:
            m = self.ALL if type(k) is int else self.bound(st, k)
        return m

    def bound(self, st, t):
        """characters a computed code can be"""
        lo, hi = self.range(st, t)
        if hi is None or hi >= MAXC:
            return self.CHARS
        return self.cmask(lambda a: a.lo <= hi)

    def setmask(self, st, k, m):
        st.facts[("tok", k)] = m

    def single(self, m):
        """the character of a one-character class"""
        if m and not m & (m - 1) and m != self.EOF:
            return self.atoms[m.bit_length() - 1].exact()
        return None

    def bits(self, m):
        out = []
        while m:
            b = m & -m
            out.append(b)
            m ^= b
        return out

    def vmask(self, st, v):
        """class set of a character value"""
        if type(v) is int:
            return self.atom_of(v)
        if type(v) is tuple and v[0] == "ch":
            return self.getmask(st, v[1]) & self.CHARS
        if type(v) is tuple and v[0] == "sub":
            return st.facts.get(("cs", v[1]), self.CHARS)
        return self.CHARS

    def level(self, m):
        for l in self.LEVELS:
            if not m & ~l:
                return l
        return self.CHARS

    # ---------------------------------------------------------------- interpreter hooks
    def field(self, I, st, v, var, i):
        return None

    def adt_of(self, I, st, v):
        for t, f in st.facts.items():
            if type(t) is tuple and t[0] == "discr" and t[1] == v:
                return t[2]
        return None

    def discr(self, I, st, v, adt):
        return None

    def norm(self, v):
        return v

    def isch(self, v):
        return type(v) is tuple and len(v) == 2 and v[0] == "ch"

    def test(self, st, v, m):
        """is the character v in the class m: 0, 1 or a term"""
        cur = self.vmask(st, v)
        if not cur & ~m:
            return 1
        if not cur & m:
            return 0
        return ("cin", v[1], m)

    def eq(self, I, st, a, b):
        if self.isch(b) and not self.isch(a):
            a, b = b, a
        if self.isch(a):
            if type(b) is int:
                i = self.exactidx.get(b)
                if i is None:
                    return 0 if not self.vmask(st, a) & self.atom_of(b) else ("ceq", a, b)
                return self.test(st, a, 1 << i)
            if self.isch(b):
                ma, mb = self.vmask(st, a), self.vmask(st, b)
                if not ma & mb:
                    return 0
                x, y = self.single(ma), self.single(mb)
                if x is not None and x == y:
                    return 1
                if x is not None:
                    return self.test(st, b, ma)
                if y is not None:
                    return self.test(st, a, mb)
                return ("ceq", a, b)
        return None

    def cmp(self, I, st, op, a, b):
        neg = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
        if self.isch(b) and type(a) is int:
            a, b, op = b, a, neg[op]
        if self.isch(a) and type(b) is int:
            f = {"Lt": lambda x: x < b, "Le": lambda x: x <= b, "Gt": lambda x: x > b, "Ge": lambda x: x >= b}[op]
            m = 0
            for i, t in enumerate(self.atoms):
                if t is EOF_ATOM:
                    continue
                x, y = f(t.lo), f(t.hi)
                if x != y:
                    raise Undecided("character range boundary %r" % (b,))
                if x:
                    m |= 1 << i
            return self.test(st, a, m)
        ra, rb = self.range(st, a), self.range(st, b)
        if ra[0] is not None and rb[0] is not None:
            if op in ("Gt", "Le"):
                (al, ah), (bl, bh) = rb, ra
            else:
                (al, ah), (bl, bh) = ra, rb
            r = None        # al..ah < bl..bh
            if ah is not None and ah < bl:
                r = 1
            elif bh is not None and al >= bh:
                r = 0
            if r is not None:
                return 1 - r if op in ("Ge", "Le") else r
        return None

    # ---------------------------------------------------------------- digits
    def radix(self, v):
        """(string, radix | 0) when v is a number read digit by digit"""
        if type(v) is tuple and v and v[0] == "app":
            if v[1] == "digit":
                return mkstr(None, (v[2][0],)), 0
            if v[1] == "radix":
                return v[2]
        return None

    def range(self, st, v):
        """(lo, hi) of a number, (None, None) when not known; hi None: unbounded"""
        if type(v) is int:
            return v, v
        if self.isch(v):
            v = v[1] if type(v[1]) is not int else v
        if self.isch(v):
            bs = [self.atoms[b.bit_length() - 1] for b in self.bits(self.vmask(st, v))]
            if not bs:
                return None, None
            return min(a.lo for a in bs), max(a.hi for a in bs)
        r = self.radix(v)
        if r is not None:
            p, items = sparts(r[0])
            if p is not None or any(type(x) is tuple and x[0] == "sub" for x in items):
                return 0, None
            R = r[1] or 36
            lo = hi = 0
            for x in items:
                ds = [digit(self.atoms[b.bit_length() - 1].lo, 36) for b in self.bits(self.vmask(st, x))]
                if any(d is None for d in ds) or not ds:
                    return 0, R ** len(items) - 1
                lo, hi = lo * R + min(ds), hi * R + max(ds)
            return lo, hi
        if type(v) is tuple and v and v[0] == "app" and v[1] == "rshift":
            lo, hi = self.range(st, ("app", "radix", v[2]))
            if hi is None:
                return 0, None
            return lo * v[2][1], hi * v[2][1]
        l = lin(v)
        if l is not None and l[0]:
            lo = hi = l[1]
            for t, c in l[0]:
                if t == v:
                    return None, None
                a, b = self.range(st, t)
                if a is None or b is None:
                    return None, None
                lo, hi = lo + min(a * c, b * c), hi + max(a * c, b * c)
            return lo, hi
        return None, None

    def arith(self, I, st, op, a, b):
        """numbers built digit by digit"""
        if op in ("Add", "BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                if x == 0:
                    r = self.radix(y)
                    if r is not None:
                        return y
                if type(x) is tuple and x and x[0] == "app" and x[1] == "rshift":
                    s, R = x[2]
                    if type(y) is int and 0 <= y < min(R, 10):
                        p, it = sparts(s)
                        return ("app", "radix", (mkstr(p, it + (48 + y,)), R))
                    ry = self.radix(y)
                    if ry is not None and ry[1] == 0:
                        p, it = sparts(s)
                        return ("app", "radix", (mkstr(p, it + sparts(ry[0])[1]), R))
            if op == "Add":
                return self.chdigit(st, a, b, 1)
        if op == "Sub":
            return self.chdigit(st, a, b, -1)
        if op in ("Mul", "Shl"):
            for x, y in ((a, b), (b, a)) if op == "Mul" else ((a, b),):
                if type(y) is int:
                    R = y if op == "Mul" else 1 << y
                    r = self.radix(x)
                    if r is None and x == ("sym", "acc"):
                        r = mkstr(None, (("sub", x),)), R
                    if r is None and type(x) is int and 0 < x < min(R, 10):
                        r = mkstr(None, (48 + x,)), R
                    if r is not None and r[1] in (0, R) and 2 <= R <= 36:
                        return ("app", "rshift", (r[0], R))
        return None

    def chdigit(self, st, a, b, sg):
        """c - '0' and its kin"""
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        d = dict(la[0])
        for t, c in lb[0]:
            d[t] = d.get(t, 0) + sg * c
        d = {t: c for t, c in d.items() if c}
        k = la[1] + sg * lb[1]
        if len(d) == 1:
            (t, c), = d.items()
            if self.isch(t) and c == 1:
                m = self.vmask(st, t)
                x = self.single(m)
                if x is not None:
                    return x + k
                for off, set_ in ((48, "0123456789"), (87, "abcdef"), (55, "ABCDEF")):
                    if k == -off and not m & ~self.set(map(ord, set_)):
                        return ("app", "digit", (t,))
        return None

    def nooverflow(self, I, st, op, a, b, r, lo, hi):
        x, y = self.range(st, r)
        return x is not None and y is not None and lo <= x and y <= hi

    def cast(self, I, st, kind, a, ty, fr):
        if kind in ("IntToFloat", "FloatToFloat") and (self.radix(a) is not None or type(a) is int):
            return a
        if kind == "IntToInt":
            if self.radix(a) is not None:
                rng = I.rng(ty) if type(ty) is int else None
                x, y = self.range(st, a)
                if rng and y is not None and y <= rng[1]:
                    return a
                if rng and y is None and rng[1] >= (1 << 62):
                    return a
        return None

    def const_float(self, v):
        return int(v) if v == int(v) else None

    # ---------------------------------------------------------------- splitting
    def split(self, I, st, term, targets):
        k = term[0]
        if k == "ch":
            m = self.vmask(st, term)
            res = []
            rest = m
            for t in targets:
                b = self.atom_of(t)
                if not m & b:
                    continue
                if self.single(b) is None:
                    raise Undecided("character %r is not a class of its own" % t)
                res.append((t, b))
                rest &= ~b
            if rest:
                res.append(("otherwise", rest))
            return self.fork(st, term[1], res)
        if k == "cin":
            m = self.vmask(st, ("ch", term[1]))
            res = []
            for v, x in ((1, m & term[2]), (0, m & ~term[2])):
                if x:
                    res.append((v if v in targets else "otherwise", x))
            return self.fork(st, term[1], res)
        if k == "ceq":
            a, b = term[1], term[2]
            ma, mb = self.vmask(st, a), self.vmask(st, b)
            if bin(ma).count("1") > bin(mb).count("1"):
                a, b, ma, mb = b, a, mb, ma
            if not self.isch(a):
                a, b, ma, mb = b, a, mb, ma
            out = []
            parts = self.bits(ma)
            if len(parts) > 40:
                return None
            for i, p in enumerate(parts):
                s = st if i == len(parts) - 1 else st.copy()
                self.setmask(s, a[1], p)
                e = self.eq(I, s, a, b)
                if type(e) is tuple and e[0] == "ceq":
                    return None
                out.extend(I.split(s, e, targets))
            return out
        if k == "bin" and term[1] in ("Lt", "Eq"):
            a, b = term[2], term[3]
            for x, y in ((a, b), (b, a)):
                r = self.radix(x)
                if r is not None and type(y) is int:
                    c = self.cmp(I, st, "Lt", a, b) if term[1] == "Lt" else self.eqnum(st, x, y)
                    if c is not None:
                        return [(c if c in targets else "otherwise", st)]
                    # split the first digit that is not determined
                    for it in sparts(r[0])[1]:
                        if self.isch(it):
                            bs = self.bits(self.vmask(st, it))
                            if len(bs) > 1:
                                out = []
                                for i, p in enumerate(bs):
                                    s = st if i == len(bs) - 1 else st.copy()
                                    self.setmask(s, it[1], p)
                                    r2 = self.split(I, s, term, targets)
                                    if r2 is None:
                                        return None
                                    out.extend(r2)
                                return self.mergeback(out, it[1])
                    return None
        if self.radix(term) is not None and targets and all(type(t) is int for t in targets):
            out = []
            cur = [st]
            for t in targets:
                nxt = []
                for s in cur:
                    for v, s2 in I.split(s, ("bin", "Eq", term, t), [0, 1]):
                        (out if v == 1 else nxt).append((t, s2) if v == 1 else s2)
                cur = nxt
            return out + [("otherwise", s) for s in cur]
        if k == "app" and term[1] in ("weq", "win", "strlen"):
            return self.split_word(I, st, term, targets)
        if k == "app" and term[1] == "allin":
            return self.split_allin(I, st, term, targets)
        if k == "app" and term[1] == "validcp":
            lo, hi = self.range(st, term[2][0])
            if hi is not None and hi < 0xD800:
                return [(1 if 1 in targets else "otherwise", st)]
            f = st.facts.get(("surr", term[2][0]))
        return None

    def eqnum(self, st, x, y):
        lo, hi = self.range(st, x)
        if lo is None:
            return None
        if lo == hi:
            return int(lo == y)
        if y < lo or hi is not None and y > hi:
            return 0
        return None

    def mergeback(self, out, key):
        """join outcomes that differ only in the class of one character"""
        groups = {}
        for v, s in out:
            o = {k: x for k, x in s.facts.items() if k != ("tok", key)}
            g = groups.setdefault((v, repr(sorted(o.items(), key=repr))), [])
            g.append(s)
        res = []
        for (v, _), g in groups.items():
            m = 0
            for s in g:
                m |= s.facts[("tok", key)]
            g[0].facts[("tok", key)] = m
            res.append((v, g[0]))
        return res

    def fork(self, st, key, res):
        out = []
        for i, (v, m) in enumerate(res):
            s = st if i == len(res) - 1 else st.copy()
            self.setmask(s, key, m)
            out.append((v, s))
        return out

    # ---------------------------------------------------------------- words
    def streq(self, I, st, a, b):
        if type(a) is str:
            a, b = b, a
        if type(b) is not str or not (type(a) is tuple and a and a[0] == "S"):
            return None
        p, items = sparts(a)
        if p is not None:
            return None
        sub = any(type(x) is tuple and x[0] == "sub" for x in items)
        if sub or b in self.wordset and len(items) == len(b) and any(type(x) is tuple for x in items):
            c = self.cands(st, a)
            if c == frozenset((b,)):
                return 1
            if b not in c:
                return 0
            return ("app", "weq", (a, b))
        if len(items) != len(b):
            return 0
        r = 1
        for x, y in zip(items, b):
            e = int(x == ord(y)) if type(x) is int else self.eq(I, st, x, ord(y))
            if e == 0:
                return 0
            if e != 1:
                r = e if r == 1 else ("bin", "BitAnd", r, e)
        return r

    def cands(self, st, w):
        """texts an unknown string can be: known words, ('o', length) or ('o', None)"""
        f = st.facts.get(("word", w))
        p, items = sparts(w)
        pre, suf = [], []
        for x in items:
            if type(x) is tuple and x[0] == "sub":
                break
            pre.append(self.vmask(st, x))
        for x in reversed(items):
            if type(x) is tuple and x[0] == "sub":
                break
            suf.append(self.vmask(st, x))
        unknown = len(pre) < len(items)
        out = set()
        for c in self.words if f is None else [x for x in f[1] if type(x) is str]:
            n = len(c)
            if not unknown and n != len(items) or n < len(items):
                continue
            if any(not self.atom_of(ord(ch)) & m for ch, m in zip(c, pre)) or any(
                    not self.atom_of(ord(ch)) & m for ch, m in zip(reversed(c), suf)):
                continue
            if any(type(x) is tuple and x[0] == "sub" and not all(any(self.atom_of(ord(ch)) & self.vmask(st, y) for y in items)
                                                                  for ch in c) for x in items):
                continue
            out.add(c)
        if f is not None:
            out |= {x for x in f[1] if type(x) is tuple}
        elif not unknown:
            if not (len(out) == 1 and all(self.single(m) is not None for m in pre)):
                out.add(("o", len(items)))
        else:
            for n in range(max(1, len(items)), 14):
                out.add(("o", n))
            out.add(("o", None))
        return frozenset(out)

    def wlen(self, c):
        return len(c) if type(c) is str else c[1]

    def split_word(self, I, st, term, targets):
        w = term[2][0]
        c = self.cands(st, w)
        groups = {}
        for x in c:
            if term[1] == "weq":
                v = int(x == term[2][1])
            elif term[1] == "win":
                v = int(x in term[2][1])
            else:
                v = self.wlen(x)
            key = v if v in targets else "otherwise"
            groups.setdefault(key, set()).add(x)
        out = []
        l = sorted(groups.items(), key=repr)
        for i, (v, g) in enumerate(l):
            s = st if i == len(l) - 1 else st.copy()
            s.facts[("word", w)] = ("in", frozenset(g))
            out.append((v, s))
        return out

    # ---------------------------------------------------------------- strings of unknown length
    def nonempty(self, v):
        return type(v) is tuple and v and v[0] == "sub" and v[1][0] == "sym"

    def allin(self, st, v, m):
        """are all characters of the string in class m: 0, 1 or a term"""
        r = 1
        for x in sparts(v)[1]:
            c = self.vmask(st, x)
            if not c & ~m:
                continue
            if not c & m:
                return 0
            if type(x) is tuple and x[0] == "sub":
                if any(not e & m for e in st.facts.get(("has", x[1]), ())):
                    return 0
                t = ("app", "allin", (x[1], m))
            else:
                t = ("cin", x[1], m)
            r = t if r == 1 else ("bin", "BitAnd", r, t)
        return r

    def split_allin(self, I, st, term, targets):
        sym, m = term[2]
        x = ("sub", sym)
        c = self.vmask(st, x)
        out = []
        if c & m and not any(not e & m for e in st.facts.get(("has", sym), ())):
            s = st.copy()
            s.facts[("cs", sym)] = c & m
            out.append((1 if 1 in targets else "otherwise", s))
        if c & ~m:
            st.facts[("has", sym)] = tuple(st.facts.get(("has", sym), ())) + (c & ~m,)
            out.append((0 if 0 in targets else "otherwise", st))
        return out

    def predmask(self, I, st, fn, byref):
        """class on which a closure over one character holds"""
        s = st.copy()
        k = ("sym", "each")
        s.facts[("tok", k)] = self.CHARS
        arg = ("ch", k)
        if byref:
            arg = ("R", ("V", arg), ())
        m = 0
        for s2, ev in I.callback(s, fn, [arg]):
            if ev[0] != "ret":
                raise Undecided("predicate closure: %s" % (ev,))
            for v, s3 in ([(ev[1], s2)] if type(ev[1]) is int else I.split(s2, ev[1], [0, 1])):
                if any(kk != ("tok", k) and st.facts.get(kk) != vv for kk, vv in s3.facts.items()):
                    raise Undecided("predicate closure depends on more than the character")
                if v == 1:
                    m |= s3.facts[("tok", k)]
        return m

    def strloop(self, I, st, name, v, fn, acc, dest_ctx):
        """a closure applied to every character of a string with unknown parts; None when not handled"""
        if name in ("all", "any"):
            m = self.predmask(I, st, fn, False)
            if name == "any":
                r = self.allin(st, v, self.CHARS & ~m)
                return 1 - r if type(r) is int else ("un", "Not", r)
            return self.allin(st, v, m)
        if name == "fold":
            s = st.copy()
            k = ("sym", "each")
            m = 0
            for x in sparts(v)[1]:
                m |= self.vmask(st, x)
            s.facts[("tok", k)] = m
            if acc not in (0, ("app", "f64", (0.0,))):
                raise Undecided("fold from another start")
            res = []
            for s2, ev in I.callback(s, fn, [("sym", "acc"), ("ch", k)]):
                if ev[0] != "ret":
                    raise Undecided("fold closure: %s" % (ev,))
                res.append(ev[1])
            R = set()
            for x in res:
                r = self.radix(x)
                if r is None:
                    raise Undecided("fold closure is no digit accumulation")
                it = sparts(r[0])[1]
                if len(it) != 2 or it[0] != ("sub", ("sym", "acc")) or it[1] != ("ch", k) and type(it[1]) is not int:
                    raise Undecided("fold closure is no digit accumulation")
                R.add(r[1])
            if len(R) != 1:
                raise Undecided("fold closure is no digit accumulation")
            return ("app", "radix", (v, R.pop()))
        return None

    # ---------------------------------------------------------------- parsing
    def shape(self, st, items):
        """a string as digits (D: one or more), '.', 'e' and 's' (sign); None when it holds anything else"""
        out = ""
        for x in items:
            m = self.vmask(st, x)
            many = type(x) is tuple and x[0] == "sub"
            f = st.facts.get(("shape", x[1])) if many else None
            if f is not None:
                t = f
            elif not m & ~self.DIG[10]:
                t = "D"
            elif many:
                return None
            elif m == self.set((46,)):
                t = "."
            elif not m & ~self.set((69, 101)):
                t = "e"
            elif not m & ~self.set((43, 45)):
                t = "s"
            else:
                return None
            if out.endswith("D") and t.startswith("D"):
                t = t[1:]
            out += t
        return out if len(out) <= 8 else None

    def strform(self, st, v):
        """decimal literal syntax of a string: 1 valid, 0 invalid, None unknown"""
        p, items = sparts(v)
        if p is not None:
            return None
        s = self.shape(st, items)
        if s is None:
            return None
        import re
        return int(re.fullmatch(r"s?(D\.?D?|\.D)(es?D)?", s) is not None)

    def parsed(self, I, st, t):
        if t[1] == "parse":
            to, v = t[2]
            if to in ("f64", "f32") and not is_term(v):
                f = self.strform(st, v)
                if f is None:
                    raise Undecided("parse of %r" % (v,))
                return [(st, ok(("app", "parse", ("f64", v))) if f else err(("app", "parse_err", ())))]
            return None
        if t[1] == "radix":
            ty, v, R = t[2]
            if type(R) is not int:
                return None
            p, items = sparts(v)
            if not items:
                return [(st, err(("app", "parse_err", ())))]
            for x in items:
                m = self.vmask(st, x)
                if m & ~self.DIG[R]:
                    if not m & self.DIG[R]:
                        return [(st, err(("app", "parse_err", ())))]
                    raise Undecided("digits of %r" % (v,))
            val = ("app", "radix", (v, R))
            bits = {"i8": 7, "u8": 8, "i16": 15, "u16": 16, "i32": 31, "u32": 32, "i64": 63, "u64": 64, "i128": 127, "u128": 128,
                    "usize": 64, "isize": 63}.get(ty)
            if bits is None:
                raise Undecided("from_str_radix of %s" % ty)
            lo, hi = self.range(st, val)
            if hi is not None and hi < 1 << bits:
                return [(st, ok(val))]
            out = []
            s = st.copy()
            out.append((s, ok(val)))
            f = st.facts.get(("app", "validcp", (val,)))
            if not (f is not None and 0 not in f[1]) or bits < 21:
                st.facts[("app", "validcp", (val,))] = ("in", frozenset((0,)))
                out.append((st, err(("app", "parse_err", ()))))
            return out
        return None

    # ---------------------------------------------------------------- char methods
    def charfn(self, I, st, name, args):
        if name in ("from_u32", "from_digit"):
            if name == "from_digit":
                raise Undecided("from_digit")
            v = args[0]
            if type(v) is int:
                return [(st, some(v) if 0 <= v <= MAXC and not 0xD800 <= v <= 0xDFFF else NONE)]
            if self.isch(v):
                return [(st, some(v))]
            out = []
            for b, s in I.split(st, ("app", "validcp", (v,)), [0, 1]):
                if b == 1 and self.radix(v) is not None:
                    it = sparts(self.radix(v)[0])[1]
                out.append((s, some(("ch", v)) if b == 1 else NONE))
            return out
        c = args[0]
        if type(c) is int:
            return concrete(I, st, name, args)
        if not self.isch(c):
            raise Undecided("%s of %r" % (name, c))
        if name == "is_digit" or name == "to_digit":
            R = args[1]
            if type(R) is not int or not 2 <= R <= 36:
                raise Undecided("radix %r" % (R,))
            m = self.DIG[R]
            if name == "is_digit":
                return [(st, self.test(st, c, m))]
            out = []
            for b, s in I.split(st, self.test(st, c, m), [0, 1]):
                if b == 1:
                    x = self.single(self.vmask(s, c))
                    out.append((s, some(digit(x, R) if x is not None else ("app", "digit", (c,)))))
                else:
                    out.append((s, NONE))
            return out
        if name in ("to_ascii_lowercase", "to_ascii_uppercase"):
            up = self.set(range(65, 91)) if name == "to_ascii_lowercase" else self.set(range(97, 123))
            out = []
            for b, s in I.split(st, self.test(st, c, up), [0, 1]):
                if b != 1:
                    out.append((s, c))
                else:
                    bs = self.bits(self.vmask(s, c))
                    for i, p in enumerate(bs):
                        s2 = s if i == len(bs) - 1 else s.copy()
                        self.setmask(s2, c[1], p)
                        out.append((s2, self.single(p) ^ 32))
            return out
        if name == "eq_ignore_ascii_case":
            d = args[1]
            if type(d) is int and d < 128:
                return [(st, self.test(st, c, self.set({ord(chr(d).lower()), ord(chr(d).upper())})))]
            raise Undecided(name)
        if name in ("len_utf8", "len_utf16"):
            groups = {}
            for b in self.bits(self.vmask(st, c)):
                a = self.atoms[b.bit_length() - 1]
                n = len(chr(a.lo).encode("utf8")) if name == "len_utf8" else 1 + (a.lo > 0xFFFF)
                groups[n] = groups.get(n, 0) | b
            return self.fork2(st, c[1], sorted(groups.items()))
        m, opaque = self.charclass(name)
        cur = self.vmask(st, c)
        if not cur & opaque:
            return [(st, self.test(st, c, m))]
        # characters whose property the class does not determine: both outcomes
        res = []
        if cur & m:
            res.append((1, cur & (m | opaque)))
        elif cur & opaque:
            res.append((1, cur & opaque))
        if cur & ~m:
            res.append((0, cur & ~m))
        return self.fork2(st, c[1], res)

    def fork2(self, st, key, res):
        return [(s, v) for v, s in self.fork(st, key, res)]

    def charclass(self, name):
        """(class where the method certainly holds, class where it is not determined)"""
        if name == "is_id_start":
            return self.cmask(lambda a: a.cls == 2), 0
        if name == "is_id_continue":
            return self.cmask(lambda a: a.cls >= 1), 0
        r = self._m.get(name)
        if r is None:
            m = o = 0
            for i, a in enumerate(self.atoms):
                if a is EOF_ATOM:
                    continue
                x = prop(name, a.lo, a.hi)
                if x is None:
                    o |= 1 << i
                elif x:
                    m |= 1 << i
            r = self._m[name] = m, o
        return r

    def inset(self, I, st, w, cs):
        if self.isch(w):
            return self.test(st, w, self.set(cs))
        return None

    def next(self, I, st, r, it):
        if it == ("O", "source"):
            return ("event", ("adv", I.models.ctx[0], I.models.ctx[1]))
        return None

    # ---------------------------------------------------------------- printing
    def show(self, m):
        names = {"#ws": "<white space>", "#lt": "<line terminator>", "#idstart": "<id start>", "#idpart": "<id part>",
                 "#dec": "0-9", "#hex": "<hex digit>", "#eof": "<eof>"}
        for n, x in self.SETS.items():
            if m == x and n in names:
                return names[n]
        if m == self.ALL:
            return "any"
        if m == self.CHARS:
            return "any character"
        bs = self.bits(m)
        inv = self.bits(self.ALL & ~m)
        if len(bs) > len(self.atoms) // 2:
            return "any but " + " ".join(self.show1(b) for b in inv[:12]) + (" .." if len(inv) > 12 else "")
        return "|".join(self.show1(b) for b in bs[:10]) + (" .." if len(bs) > 10 else "")

    def show1(self, b):
        a = self.atoms[b.bit_length() - 1]
        if a is EOF_ATOM:
            return "<eof>"
        if a.lo == a.hi:
            return chr(a.lo) if 0x20 < a.lo < 0x7F else "U+%04X" % a.lo
        return "<U+%X..U+%X %s>" % (a.lo, a.hi, ("neither", "id part", "id start")[a.cls])


def digit(c, r):
    ch = chr(c)
    if "0" <= ch <= "9":
        d = c - 48
    elif "a" <= ch <= "z":
        d = c - 87
    elif "A" <= ch <= "Z":
        d = c - 55
    else:
        return None
    return d if d < r else None


def prop(name, lo, hi):
    """a std char predicate on a class: True / False / None (not determined)"""
    f = {"is_whitespace": lambda c: c in RUSTWS,
         "is_ascii": lambda c: c < 128,
         "is_ascii_digit": lambda c: 48 <= c <= 57,
         "is_ascii_hexdigit": lambda c: digit(c, 16) is not None if c < 128 else False,
         "is_ascii_alphabetic": lambda c: c < 128 and chr(c).isalpha(),
         "is_ascii_alphanumeric": lambda c: c < 128 and chr(c).isalnum(),
         "is_ascii_whitespace": lambda c: c in (9, 10, 12, 13, 32),
         "is_ascii_punctuation": lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126,
         "is_ascii_uppercase": lambda c: 65 <= c <= 90,
         "is_ascii_lowercase": lambda c: 97 <= c <= 122,
         "is_control": lambda c: c < 32 or 127 <= c <= 159}.get(name)
    if f is not None:
        if lo == hi:
            return f(lo)
        if lo >= 0xA0:
            return f(lo)
        x = {f(c) for c in range(lo, min(hi, 0xA0) + 1)}
        return x.pop() if len(x) == 1 else None
    if name in ("is_alphabetic", "is_alphanumeric", "is_numeric"):
        if lo == hi and lo < 128:
            return {"is_alphabetic": chr(lo).isalpha(), "is_alphanumeric": chr(lo).isalnum(), "is_numeric": chr(lo).isdigit()}[name]
        if lo == hi and unicodedata.category(chr(lo))[0] in "ZC":
            return False
        return None
    raise Undecided("char::%s" % name)


def concrete(I, st, name, args):
    c = args[0]
    if name == "from_u32":
        return [(st, some(c) if 0 <= c <= MAXC and not 0xD800 <= c <= 0xDFFF else NONE)]
    if name == "to_digit":
        d = digit(c, args[1])
        return [(st, NONE if d is None else some(d))]
    if name == "is_digit":
        return [(st, int(digit(c, args[1]) is not None))]
    if name == "is_id_start":
        return [(st, int(idclass(c) == 2))]
    if name == "is_id_continue":
        return [(st, int(idclass(c) >= 1))]
    if name in ("to_ascii_lowercase", "to_ascii_uppercase"):
        ch = chr(c)
        return [(st, ord(ch.lower() if name.endswith("lowercase") else ch.upper()) if c < 128 else c)]
    if name == "len_utf8":
        return [(st, len(chr(c).encode("utf8")))]
    if name == "len_utf16":
        return [(st, 1 + (c > 0xFFFF))]
    if name == "eq_ignore_ascii_case" and type(args[1]) is int:
        return [(st, int(chr(c).lower() == chr(args[1]).lower()) if c < 128 and args[1] < 128 else int(c == args[1]))]
    x = prop(name, c, c)
    if x is None:
        raise Undecided("char::%s of U+%04X" % (name, c))
    return [(st, int(x))]
