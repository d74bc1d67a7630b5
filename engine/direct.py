"""Small direct analyses: entry points (C23), the scanner's lookahead protocol (C25), punctuator spellings (C04)."""
from .interp import Interp, State, Undecided
from .models import Models, NONE
from .mir import Program
from .chars import LexDomain
from .grammar import Grammar
from .lexprod import LexProduct, SCANNER, COUNTERS, STARTS
from .tokens import PUNC
from .runner import Item
from . import refc
from spec import tokens as T

NEXTF = COUNTERS + ("newline",)


def result(name, items, undec, counts, I):
    return {"task": name, "items": items, "undecided": sorted(set(undec)), "counts": counts, "functions": sorted(map(str, I.seen))}


def ends(P, tail, has=""):
    return [k for k in P.bodies if isinstance(k, str) and k.split("::")[-1] == tail and has in k]


def drive(I, st, what, undec, items, props=("C01",)):
    """[(state, value)] of the frames pushed on st; other events are reported"""
    out = []
    for s, ev in I.run(st, stop_depth=0):
        if ev[0] == "ret":
            s.frames.pop()
            out.append((s, ev[1]))
        elif ev[0] == "panic":
            items.append(Item("direct|%s|panic|%s" % (what, ev[1]), set(props), "%s: panic: %s" % (what, ev[1]), str(ev[2])))
        elif ev[0] == "undecided":
            undec.append("%s: %s at %s" % (what, ev[1], ev[2]))
        else:
            out.append((s, ("EV", ev)))
    return out


CHANGES = set("""replace replacen trim trim_start trim_end trim_left trim_right trim_matches trim_start_matches
trim_end_matches strip_prefix strip_suffix to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase repeat split split_once
rsplit rsplitn splitn split_terminator split_whitespace split_at lines truncate pop remove insert insert_str push push_str retain
clear drain replace_range make_ascii_lowercase make_ascii_uppercase filter filter_map flat_map map map_while skip skip_while take
take_while rev step_by chain scan inspect cycle dedup sort""".split())


def changed(I, st, v, depth=0):
    """what changed the text of the value, None when nothing did"""
    if type(v) is tuple and v:
        if v[0] == "CHANGED":
            return v[1]
        if v[0] == "R":
            try:
                v = I.deref(st, v)
            except Undecided:
                return None
            return changed(I, st, v, depth + 1) if depth < 8 else None
        for x in v:
            r = changed(I, st, x, depth + 1) if depth < 12 else None
            if r:
                return r
    return None


def fromsource(I, st, v, depth=0):
    if v == ("sym", "source"):
        return True
    if type(v) is tuple and v and depth < 12:
        if v[0] == "R":
            try:
                return fromsource(I, st, I.deref(st, v), depth + 1)
            except Undecided:
                return False
        return any(fromsource(I, st, x, depth + 1) for x in v)
    return False


class TextFlow(Models):
    """follows the source text through the library calls of an entry point"""

    def call(self, I, st, fr, args, dest, target, sp, mb):
        n = fr.p.split("::")[-1]
        c = next((x for x in (changed(I, st, a) for a in args) if x), None)
        if c is None and n in CHANGES and args and fromsource(I, st, args[0]):
            c = n
        if c is not None:
            if args and type(args[0]) is tuple and args[0] and args[0][0] == "R" and n in CHANGES:
                try:
                    I.store_ref(st, args[0], ("CHANGED", c))
                except (Undecided, AttributeError):
                    pass
            return [(st, ("CHANGED", c))]
        return super().call(I, st, fr, args, dest, target, sp, mb)


class Entry:
    """lib.rs and the wasm wrapper: each entry point hands its source, unchanged, to the goal its name says"""
    name = "entry"

    def __init__(self, dumps):
        self.dumps = dumps

    def tasks(self, prop):
        return [("giron", "parse_script"), ("giron", "parse_module"), ("wasm", "parse_script"), ("wasm", "parse_module")]

    def run(self, task, maxtime):
        crate, fn = task
        items, undec = [], []
        what = "%s::%s" % (crate, fn)
        if crate == "giron":
            g = Grammar(self.dumps["giron"])
            P = g.P
            cut = {k for n in ("parse_script", "parse_module") for k in ends(P, n, "parser::parser::Parser")}
            new = ends(P, "new", "parser::parser::Parser")
            I = Interp(P, g.dom, TextFlow(), cut | set(new))
            if fn not in P.bodies or len(cut) != 2 or len(new) != 1:
                return result(what, [], ["%s: entry points not found" % what], {}, I)
            src = ("sym", "source")
        else:
            if "giron_wasm" not in self.dumps:
                return {"task": what, "items": [], "undecided": ["wrapper crate not built"], "counts": {}, "functions": []}
            P = Program(self.dumps["giron_wasm"])
            I = Interp(P, LexDomain(P, set()), ExternCut(), set())
            if fn not in P.bodies:
                return result(what, [], ["%s: not found" % what], {}, I)
            src = ("sym", "source")
            for js, rust in (("parseScript", "parse_script"), ("parseModule", "parse_module")):
                gen = [k for k in P.bodies if isinstance(k, str) and "__wasm_bindgen_generated_" + js in k]
                called = {c for k in gen for c in calls(P.bodies[k])}
                if fn == rust and gen and called & {"parse_script", "parse_module"} and rust not in called:
                    items.append(Item("entry|wasm|%s" % js, {"C23"}, "wasm: %s does not call %s" % (js, rust), gen[0]))
        st = State()
        st.extra.update({"ic": 0, "iev": None})
        n = 0
        todo = []
        try:
            I.push(st, P.bodies[fn], [src], None, -1)
            todo = I.run(st, stop_depth=0)
        except Undecided as e:
            undec.append("%s: %s" % (what, e))
        got = 0
        while todo:
            s, ev = todo.pop()
            n += 1
            if n > 200:
                undec.append(what + ": too many paths")
                break
            if ev[0] == "call":
                key, args, dest, target = ev[1:5]
                name = key.split("::")[-1]
                if name == "new":
                    a = args[0]
                    ok = a == ("I", "chars", ("sym", "source"))
                    ch = changed(I, s, a)
                    if ch:
                        items.append(Item("entry|%s|changed|%s" % (what, ch), {"C23"}, "%s parses its source changed by %s" % (what, ch), I.where(s)))
                    elif not ok:
                        undec.append("%s: the parser reads %s" % (what, str(a)[:80]))
                    s.extra["src"] = a
                    v = ("sym", "parser")
                else:
                    a = I.deref(s, args[0])
                    want = ("sym", "parser") if crate == "giron" else src
                    if name != fn:
                        items.append(Item("entry|%s|%s" % (what, name), {"C23"}, "%s parses its source with %s" % (what, name), I.where(s)))
                        continue
                    if crate != "giron" and a != want and not changed(I, s, a) and type(a) is tuple and a[0] != "sym":
                        undec.append("%s: parses %s" % (what, str(a)[:80]))
                    elif a != want:
                        items.append(Item("entry|%s|source" % what, {"C23"}, "%s parses something other than its source" % what, I.where(s)))
                        continue
                    got += 1
                    if crate == "wasm":
                        continue
                    v = ("sym", "result")
                try:
                    if target == -1 and dest is None:
                        continue
                    r = I.outcomes_resume(s, dest, target, v) if hasattr(I, "outcomes_resume") else resume(I, s, dest, target, v)
                    todo.extend(r)
                except Undecided as e:
                    undec.append("%s: %s" % (what, e))
            elif ev[0] == "ret":
                if crate == "giron" and ev[1] != ("sym", "result"):
                    if type(ev[1]) is tuple and ev[1] and ev[1][0] == "A":
                        undec.append("%s: result is rebuilt" % what)
                    else:
                        items.append(Item("entry|%s|result" % what, {"C23"}, "%s does not return the parser's result" % what, fn))
            elif ev[0] == "panic":
                items.append(Item("entry|%s|panic|%s" % (what, ev[1]), {"C01"}, "%s: panic: %s" % (what, ev[1]), str(ev[2])))
            elif ev[0] == "undecided":
                undec.append("%s: %s" % (what, ev[1]))
        return result(what, items, undec, {"entry_points": 1, "delegations": got}, I)


def calls(body):
    out = set()
    for sts, t, sp, mb, cl in body.blocks:
        if t[0] == "call" and t[1][0] == "k":
            f = t[1][1]
            out.add(getattr(f, "r", None) or getattr(f, "p", None) or str(f))
    return out


def resume(I, s, dest, target, v):
    from .interp import Work
    w = Work()
    if I.deliver(s, dest, target, v, w, 0):
        w.append(s)
    out = list(w.out)
    for x in list(w):
        out += I.run(x, stop_depth=0)
    return out


class ExternCut(TextFlow):
    """calls of the parser crate are events"""

    def call(self, I, st, fr, args, dest, target, sp, mb):
        if fr.p in ("giron::parse_script", "giron::parse_module"):
            return ("event", ("call", fr.p, tuple(args), dest, target))
        return super().call(I, st, fr, args, dest, target, sp, mb)


class Protocol:
    """save_state / restore_state / next: a token handed back is handed out again, once, with the scanner as it was after it"""
    name = "protocol"

    def __init__(self, dumps):
        self.P = P = Program(dumps["giron"])
        self.dom = LexDomain(P, set(T.KEYWORDS))
        self.I = Interp(P, self.dom, Models(), set())
        ks = ends(P, "next", SCANNER)
        self.key = {n: (ends(P, n, SCANNER) or [None])[0] for n in ("next", "save_state", "restore_state")}
        from .lexrun import SPEC, PUNCTS
        ref = refc.load([SPEC], {"KEYWORDS": tuple(T.KEYWORDS), "BOOLS": ("true", "false"), "PUNCTS": PUNCTS})
        self.p = LexProduct(P, self.I, self.dom, ref, self.key["next"])

    def tasks(self, prop):
        return [(n, g) for n in ("new", "once", "twice") for g in ("Div", "RegExp")]

    def base(self):
        """a scanner between two tokens, in any position"""
        p = self.p
        st = State()
        p.init = p.initial()
        st.heap["P"] = p.entry(st, p.init, ())
        st.nid = 1000
        st.extra.update({"ic": 0, "rc": 0, "mx": 0, "iev": None, "rev": None, "fl": {}, "prog": 0, "mode": None})
        return st

    def scan(self, st, tag):
        """what scanning one token may do to the scanner"""
        p = self.p
        fs = []
        for i, (n, x) in enumerate(zip(p.sfields(), p.sval(st)[3])):
            if n in COUNTERS + STARTS:
                x = ("sym", (tag, n))
            elif n in ("newline", "start_newline"):
                x = ("sym", tag + n)
            elif type(x) is tuple and x and x[0] == "V" and not x[2] or n == "curly_stack":
                x = ("V", ("sym", tag + n), ())
            fs.append(x)
        st.heap["P"] = ("A", SCANNER, 0, tuple(fs))
        p.setbuf(st, (("ch", 7), ("ch", 8)))
        st.facts[("tok", 7)] = st.facts[("tok", 8)] = self.dom.CHARS

    def go(self, st, fn, args, undec, items):
        b = self.P.bodies[self.key[fn]]
        self.I.push(st, b, [("R", ("G", "P"), ())] + args, None, -1)
        return drive(self.I, st, fn, undec, items)

    def run(self, task, maxtime):
        what, goal = task
        items, undec, I, p = [], [], self.I, self.p
        name = "protocol %s %s" % task
        if None in self.key.values():
            return result(name, [], ["lookahead functions not found"], {}, I)
        n = [0]

        def bad(k, text):
            items.append(Item("protocol|%s" % k, {"C25", "C20", "C29"} if k == "position" else {"C23", "C24"} if k == "initial" else {"C25"},
                              text, "Scanner::restore_state / next"))

        def fields(st):
            return {f: p.sfield(st, f) for f in p.sfields()}

        def step(sts, f):
            out = []
            for s in sts:
                out += f(s)
            return out

        def save(s):
            before = fields(s)
            out = []
            for s2, v in self.go(s, "save_state", [], undec, items):
                after = fields(s2)
                ch = [f for f in before if f != "state" and before[f] != after[f]]
                if ch:
                    bad("save", "save_state changes %s" % ", ".join(ch))
                out.append(s2)
            return out

        def nexttok(tok, want):
            """the pending token comes out, and the scanner is in the state it had after it"""
            def f(s):
                out = []
                for s2, v in self.go(s, "next", [self.p.goalvalue(self.P.bodies[self.key["next"]], goal)], undec, items):
                    n[0] += 1
                    if type(v) is tuple and v and v[0] == "EV":
                        bad("rescan", "a token put back is scanned again")
                        continue
                    if not (type(v) is tuple and v[0] == "A" and v[2] == 0 and v[3][0] == tok):
                        bad("token", "next after restore_state does not return the token put back")
                        continue
                    have = fields(s2)
                    for k in NEXTF + ("reader", "curly_stack"):
                        if k in have and have[k] != want[k]:
                            bad("position" if k in COUNTERS else k, "after a token put back is taken again the scanner's %s is wrong" % k)
                    for i, k in enumerate(p.sfields()):
                        if k not in NEXTF + STARTS + ("reader", "curly_stack", "state", "start_newline") and have[k] != p.init[3][i]:
                            bad("residue", "after a token put back is taken again %s is left set" % k)
                    out.append(s2)
                return out
            return f

        try:
            if what == "new":
                v = p.initial()
                fs = dict(zip(p.sfields(), v[3]))
                for k, w in (("line", 1), ("col", 1), ("current", 0), ("newline", 0)):
                    if k in fs and fs[k] != w:
                        bad("initial", "a new scanner starts with %s = %s" % (k, fs[k]))
                if "curly_stack" in fs and fs["curly_stack"] != ("V", None, ()):
                    bad("initial", "a new scanner starts inside braces")
                n[0] += 1
            else:
                tok = ("sym", "token")
                st = self.base()
                p0 = fields(st)
                sts = save(st)
                for s in sts:
                    self.scan(s, "h:")
                want = fields(sts[0]) if sts else None

                def restore(s):
                    out = []
                    for s2, v in self.go(s, "restore_state", [tok], undec, items):
                        have = fields(s2)
                        for k in COUNTERS:
                            if k in have and have[k] != p0[k]:
                                bad("position", "restore_state leaves %s after the token looked at" % k)
                        out.append(s2)
                    return out
                sts = step(sts, restore)
                if what == "twice":
                    sts = step(step(step(sts, save), nexttok(tok, want)), restore)
                step(sts, nexttok(tok, want))
        except Undecided as e:
            undec.append("%s: %s" % (name, e))
        seen = {}
        for it in items:
            seen.setdefault(it.key, it)
        return result(name, list(seen.values()), undec, {"protocol_paths": n[0]}, I)


class Spelling:
    """each punctuator's text function gives its ECMAScript spelling"""
    name = "spelling"

    def __init__(self, dumps):
        self.g = Grammar(dumps["giron"])

    def tasks(self, prop):
        return ["to_str"]

    def run(self, task, maxtime):
        P = self.g.P
        I = Interp(P, self.g.dom, Models(), set())
        items, undec, n = [], [], 0
        ks = [k for k in P.bodies if isinstance(k, str) and "Punctuator" in k and k.split("::")[-1] in ("to_str", "to_string")]
        for k in ks:
            for i, v in enumerate(P.adts[PUNC]["v"]):
                if v["n"] not in T.PUNCT:
                    continue
                st = State()
                I.push(st, P.bodies[k], [("R", ("V", ("A", PUNC, i, ())), ())], None, -1)
                for s, r in drive(I, st, k, undec, items):
                    n += 1
                    r = I.deref(s, r) if type(r) is tuple and r and r[0] == "R" else r
                    if type(r) is str and r != T.PUNCT[v["n"]]:
                        items.append(Item("spelling|%s" % v["n"], {"C04", "C11", "C24"}, "punctuator %s is spelled %r" % (T.PUNCT[v["n"]], r), k))
                    elif type(r) is not str:
                        undec.append("%s(%s): %s" % (k, v["n"], str(r)[:80]))
        return result("punctuator spellings", items, undec, {"spellings": n}, I)


class SerdeModels(Models):
    """serde's serializer interface: what is written is recorded in the state"""

    def call(self, I, st, fr, args, dest, target, sp, mb):
        from .models import ok
        n = fr.p
        if not (n.startswith("serde::") or "serde" in n and "__private" in n):
            return super().call(I, st, fr, args, dest, target, sp, mb)
        m = n.split("::")[-1]
        j = st.extra.get("json", ())

        def val(a):
            v = I.deref(st, a) if type(a) is tuple and a and a[0] == "R" else a
            return v
        if m == "serialize":
            return self.delegate(I, st, args, dest, target)
        if m in ("serialize_struct", "serialize_map"):
            st.extra["json"] = j + (("open", m),)
        elif m in ("serialize_field", "serialize_entry"):
            st.extra["json"] = j + (("key", val(args[1]), val(args[2])),)
        elif m == "serialize_value":
            st.extra["json"] = j + (("value", val(args[1])),)
        elif m == "serialize_key":
            st.extra["json"] = j + (("keyonly", val(args[1])),)
        elif m == "skip_field":
            pass
        elif m == "end":
            st.extra["json"] = j + (("end",),)
        elif m in ("serialize_struct_variant", "serialize_tuple_variant", "serialize_newtype_variant", "serialize_unit_variant",
                   "serialize_newtype_struct", "serialize_tuple_struct", "serialize_unit_struct", "serialize_seq", "serialize_tuple"):
            st.extra["json"] = j + (("shape", m),)
        elif m.startswith("serialize_"):
            st.extra["json"] = j + (("scalar", m, val(args[1]) if len(args) > 1 else None),)
        elif m in ("collect_str", "collect_seq", "collect_map"):
            st.extra["json"] = j + (("scalar", m, val(args[1])),)
        else:
            raise Undecided("serde call %s" % n)
        return [(st, ok(("sym", "serializer")))]

    @staticmethod
    def delegate(I, st, args, dest=None, target=None, work=None):
        from .models import ok
        v = I.deref(st, args[0]) if type(args[0]) is tuple and args[0][0] == "R" else args[0]
        st.extra["json"] = st.extra.get("json", ()) + (("as", v),)
        return [(st, ok(("sym", "serializer")))]


class Serial:
    """what each node type's Serialize impl writes, variant by variant, is what ESTree prescribes"""
    name = "serialize"

    def __init__(self, dumps):
        self.g = Grammar(dumps["giron"])
        self.P = self.g.P
        self.keys = {}
        for k in self.P.bodies:
            if isinstance(k, str) and k.startswith("<") and " as serde::Serialize>::serialize" in k and k.endswith("::serialize"):
                self.keys[k[1:].split(" as ")[0]] = k

    def tasks(self, prop):
        return ["ESTree"]

    def run(self, task, maxtime):
        from spec import estree_schema as S
        P = self.P
        I = Interp(P, self.g.dom, SerdeModels(), set())
        for k in self.keys.values():
            I.objmodels[k] = lambda I, st, args, dest, target, work: SerdeModels.delegate(I, st, args)
        items, undec, n = [], [], 0

        def bad(where, text, w):
            items.append(Item("serialize|%s|%s" % (where, text), {"C22"}, "%s: %s" % (where, text), w))
        for adt, k in sorted(self.keys.items()):
            if adt not in P.adts or not adt.startswith(("estree::", "token::value")):
                continue
            tn = adt.split("::")[-1]
            for vi, v in enumerate(P.adts[adt]["v"]):
                name = v["n"] if P.adts[adt]["enum"] else tn
                if name in S.INTERNAL or tn in S.INTERNAL:
                    continue
                fs = [f for f, _ in v["f"]]
                st = State()
                st.heap["N"] = ("A", adt, vi, tuple(("sym", "field:" + f) for f in fs))
                I.push(st, P.bodies[k], [("R", ("G", "N"), ()), ("sym", "serializer")], None, -1)
                where = "%s::%s" % (tn, name) if P.adts[adt]["enum"] else tn
                for s, r in drive(I, st, where, undec, items):
                    n += 1
                    if type(r) is tuple and r and r[0] == "EV" or not (type(r) is tuple and r[0] == "A" and r[2] == 0):
                        undec.append("%s: outcome %s" % (where, str(r)[:100]))
                        continue
                    self.judge(S, tn, name, where, fs, s.extra.get("json", ()), bad, undec, k)
        seen = {}
        for it in items:
            seen.setdefault(it.key, it)
        return result("serialized shapes", list(seen.values()), undec, {"shapes": n, "types": len(self.keys)}, I)

    def judge(self, S, tn, name, where, fs, j, bad, undec, w):
        if tn in S.FLAT:
            want = ("as", ("sym", "field:" + fs[0])) if fs else None
            if j != (want,):
                bad(where, "is not written as the value it holds", w)
            return
        if tn == "Value":
            if name in S.SCALARS:
                got = [x for x in j]
                if not (len(got) == 1 and (got[0][0] == "scalar" and got[0][1] in S.SCALARS[name] or
                                           got[0][0] == "as" and fs and got[0][1] == ("sym", "field:" + fs[0]))):
                    bad(where, "is not written as a plain JSON value", w)
                elif fs and got[0][-1] != ("sym", "field:" + fs[0]):
                    bad(where, "is not written as the value it holds", w)
            return
        if not j or j[0][0] != "open" or j[-1] != ("end",):
            bad(where, "is not written as one object", w)
            return
        keys = {}
        for x in j[1:-1]:
            if x[0] != "key" or type(x[1]) is not str:
                undec.append("%s: %s" % (where, str(x)[:100]))
                return
            if x[1] in keys:
                bad(where, "writes %s twice" % x[1], w)
            keys[x[1]] = x[2]
        if name in S.PLAIN:
            want, tag = S.PLAIN[name], None
        else:
            t, more = S.VARIANT.get(name, (name, ""))
            tag = keys.pop("type", None)
            if type(tag) is tuple:
                undec.append("%s: type tag %s" % (where, tag))
                return
            if name not in S.VARIANT and name not in S.ESTREE:
                # a type the schema does not know by name: its tag must still be an ESTree type
                t = tag if tag in S.ESTREE else name
            if tag != t:
                bad(where, "has type %r instead of %r" % (tag, t), w)
                return
            want = S.ESTREE[t] | set(more.split())
        for x in sorted(want - set(keys)):
            bad(where, "has no key %s" % x, w)
        for x in sorted(set(keys) - want):
            bad(where, "has an extra key %s" % x, w)
        for x in sorted(want & set(keys)):
            f = [f for f in fs if f.replace("r#", "") == x or snake(x) == f]
            if len(f) == 1 and keys[x] != ("sym", "field:" + f[0]):
                bad(where, "key %s holds %s" % (x, str(keys[x])[:60]), w)


def snake(x):
    return "".join("_" + c.lower() if c.isupper() else c for c in x)
