"""Loads an extracted MIR dump and prepares it for interpretation."""
import re, unicodedata


def tt(x):
    if isinstance(x, list):
        return tuple(tt(i) for i in x)
    return x


class Body:
    __slots__ = ("fn", "key", "nargs", "locals", "blocks", "span", "live_in", "addr", "upd", "names", "idx")

    def __init__(self, fn, key, j):
        self.fn = fn
        self.key = key
        self.nargs = j["args"]
        self.span = j["span"]
        self.locals = [(t, n) for t, n in j["locals"]]
        self.blocks = []
        for b in j["blocks"]:
            sts = []
            for s in b["s"]:
                if s[0] == "live":
                    continue
                sts.append((s[0],) + tuple(_conv(x) for x in s[1:]))
            self.blocks.append((tuple(sts), _conv(b["t"]), b["sp"], tuple(b["mb"]), b["cl"]))
        self.live_in = None

    def liveness(self):
        """live locals at block entry; address-taken locals stay live until StorageDead."""
        if self.live_in is not None:
            return self.live_in
        n = len(self.blocks)
        addr = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        succ = [()] * n

        def oper(o, u, d):
            if o[0] in "cm":
                plc(o[1], u, d)

        def plc(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        for i, (sts, t, sp, mb, cl) in enumerate(self.blocks):
            u, d = use[i], deff[i]
            for s in sts:
                if s[0] == "=":
                    pl, rv = s[1], s[2]
                    k = rv[0]
                    if k == "use":
                        oper(rv[1], u, d)
                    elif k in ("ref", "rawptr"):
                        plc(rv[1], u, d)
                        if not any(e[0] == "*" for e in rv[1][1:]):
                            addr.add(rv[1][0])
                    elif k == "discr":
                        plc(rv[1], u, d)
                    elif k == "bin":
                        oper(rv[2], u, d)
                        oper(rv[3], u, d)
                    elif k == "un":
                        oper(rv[2], u, d)
                    elif k == "cast":
                        oper(rv[2], u, d)
                    elif k == "repeat":
                        oper(rv[1], u, d)
                    elif k == "agg":
                        for o in rv[2]:
                            oper(o, u, d)
                    if len(pl) == 1:
                        d.add(pl[0])
                    else:
                        plc(pl, u, d)
                elif s[0] == "dead":
                    d.add(s[1])
            k = t[0]
            if k == "goto":
                succ[i] = (t[1],)
            elif k == "switch":
                oper(t[1], u, d)
                succ[i] = tuple(x[1] for x in t[3]) + (t[4],)
            elif k == "drop":
                succ[i] = (t[2],)
            elif k == "call":
                oper(t[1], u, d)
                for o in t[2]:
                    oper(o, u, d)
                if len(t[3]) > 1:
                    plc(t[3], u, d)
                elif t[4] >= 0:
                    d.add(t[3][0])
                succ[i] = (t[4],) if t[4] >= 0 else ()
            elif k == "assert":
                oper(t[1], u, d)
                for o in t[4]:
                    oper(o, u, d)
                succ[i] = (t[5],)
            elif k == "return":
                u.add(0) if 0 not in d else None
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                x = use[i] | (o - deff[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        self.addr = frozenset(addr)
        self.live_in = [frozenset(x) for x in live]
        return self.live_in


def _conv(x):
    if isinstance(x, list):
        return tuple(_conv(i) for i in x)
    if isinstance(x, dict):
        return Const(x)
    return x


class Const:
    __slots__ = ("d", "val", "has")

    def __init__(self, d):
        self.d = d
        self.val = None
        self.has = False

    def __repr__(self):
        return "Const(%r)" % (self.d,)


class Program:
    def __init__(self, dump):
        self.dump = dump
        self.types = dump["types"]
        self.adts = dump["adts"]
        self.bodies = {}
        self.fninfo = dump["fns"]
        for n, f in dump["fns"].items():
            self.bodies[n] = Body(n, n, f["body"])
            for i, p in enumerate(f["promoted"]):
                self.bodies[(n, i)] = Body(n, (n, i), p)
        self.vname = {}
        self.vindex = {}
        for a, d in self.adts.items():
            for i, v in enumerate(d["v"]):
                self.vindex[(a, v["n"])] = i
        # bodies whose constants carry `of` paths: promoted lookup by function path
        self.discr = {}
        for a, d in self.adts.items():
            self.discr[a] = [v["d"] for v in d["v"]]

        self._traitimpl = {}
        for k in self.bodies:
            if isinstance(k, str):
                m = re.match(r"^<([\w:]+)(?:<.*>)? as ([\w:]+)(?:<.*>)?>::(\w+)$", k)
                if m:
                    self._traitimpl.setdefault((m.group(1), m.group(2).split("::")[-1], m.group(3)), []).append(k)

    def traitimpl(self, adt, trait, name):
        """the only implementation of a trait method for a local type, when the call names the trait alone"""
        if not self.adts.get(adt, {}).get("local"):
            return None
        ks = self._traitimpl.get((adt, trait.split("<")[0].split("::")[-1], name), ())
        return ks[0] if len(ks) == 1 else None

    def tys(self, i):
        return self.types[i]["s"]

    def adt_fields(self, adt, v):
        return self.adts[adt]["v"][v]["f"]

    def consts(self, pred=lambda n: True):
        """all constants appearing in the bodies of functions satisfying pred"""
        for n, b in self.bodies.items():
            fn = n if isinstance(n, str) else n[0]
            if not pred(fn):
                continue
            for sts, t, sp, mb, cl in b.blocks:
                for c in _consts_in(sts):
                    yield fn, c
                for c in _consts_in(t):
                    yield fn, c
                if t[0] == "switch":
                    yield fn, t

    def callees(self, fn):
        b = self.bodies[fn]
        for sts, t, sp, mb, cl in b.blocks:
            if t[0] == "call":
                yield t, sp


def _consts_in(x):
    if isinstance(x, Const):
        yield x
    elif isinstance(x, tuple):
        for i in x:
            yield from _consts_in(i)


_gen = re.compile(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>")


def callkey(f):
    """(key, selfty): 'Trait::method' or 'Type::method' for a callee record"""
    p = f["p"]
    name = f["name"]
    tr = f["trait"]
    if tr:
        return tr.split("<")[0].split("::")[-1] + "::" + name
    m = re.search(r"<impl ([^>]*(?:<[^>]*>)?[^>]*)>::", p)
    if m:
        t = m.group(1)
        if t.startswith("["):
            t = "slice"
        return t + "::" + name
    p2 = _gen.sub("", p)
    parts = p2.split("::")
    if len(parts) >= 2:
        return parts[-2] + "::" + parts[-1]
    return p2
