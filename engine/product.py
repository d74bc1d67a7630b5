"""Lock-step exploration of the compiled parser against the reference grammar program.

One joint state holds the frames of the implementation (interpreted from MIR) and of the reference program (refc.py),
over a shared, lazily classified token sequence.  Both sides stop at token advances, nonterminal calls and returns; the
product relation requires the same nonterminal calls at the same position under the same context flags, the same tokens
consumed (under the same lexical goal where it matters), the same verdict and the same tree.
"""
import heapq, itertools, signal, time
from .interp import State, Frame, Undecided, UNIT, is_term, lin, mklin, loglist, PanicVal
from .models import OPT, RES, some, ok, err, NONE, mkvec
from .tokens import TOKEN, TOKTYPE, VALUE, PUNC

NODEAST = "estree::estree::"
SPAN = "span::span::Span"
SCANNER = "scanner::scanner::Scanner"
MARKER = "span::span::Marker"
STARTF = {"line": "line_num", "col": "col", "idx": "start"}
ENDF = {"line": "end_line", "col": "end_col", "idx": "end_idx"}
SCANPOS = {"line": "end_line", "col": "end_col", "current": "end_idx"}
PARSER = "parser::parser::Parser"
ERROR = "errors::errors::Error"
ERRT = "errors::errors::ErrorType"
FLAGS = ("has_in", "has_await", "has_yield", "has_tagged", "has_return", "has_default",
         "strict", "in_function", "in_iteration", "in_switch")


class Mismatch(Exception):
    def __init__(self, kind, detail):
        self.kind = kind
        self.detail = detail


class TimeUp(BaseException):
    pass


def timeup(*a):
    raise TimeUp()


class Elsewhere(Exception):
    """the path belongs to another task"""


class RFrame:
    __slots__ = ("fn", "pc", "env", "dst", "flags")

    def __init__(self, fn, env, dst, flags):
        self.fn = fn
        self.pc = 0
        self.env = env
        self.dst = dst
        self.flags = flags     # flags to restore on return (inlined nonterminal) or None

    def copy(self):
        f = RFrame(self.fn, dict(self.env), self.dst, self.flags)
        f.pc = self.pc
        return f


class Finding:
    __slots__ = ("nt", "kind", "detail", "trace", "where", "extra")

    def __init__(self, nt, kind, detail, trace, where, extra=None):
        self.nt, self.kind, self.detail, self.trace, self.where, self.extra = nt, kind, detail, trace, where, extra

    def key(self):
        return "%s|%s|%s" % (self.nt, self.kind, self.detail)


class Product:
    MAXSTATES = 150000
    MAXTIME = 60
    GRACE = 20          # seconds to go on after the first difference
    MAXLEAD = 5

    def __init__(self, prog, interp, dom, ref, ntkeys, relevance=None, goal_accept=None):
        self.P = prog
        self.I = interp
        self.dom = dom
        self.ref = ref                  # name -> Func
        self.ntkeys = ntkeys            # impl function key -> nt name
        self.relevance = relevance or {}
        self.goal_accept = goal_accept or {}
        self.findings = {}
        self.notes = set()      # places where the reference follows the code although the standard says otherwise
        self.seenf = set()
        self.callrec = {}               # nt -> list of (mask, flag values, args) seen at call sites
        self.stats = {}
        self.undec = []
        self.entrycalls = {}            # nt -> set of nts called before any token was consumed
        self.maxstates_hit = []
        self.panics = {}
        self.adtname = {}
        for p in prog.adts:
            self.adtname.setdefault(p.split("::")[-1], []).append(p)

    # ------------------------------------------------------------------ setup
    def setup(self, nt, key, entry):
        I, st = self.I, State()
        body = self.P.bodies[key]
        st.extra = {"ic": 0, "rc": 0, "mx": 0, "iev": None, "rev": None, "fl": None, "unsc": None, "mode": None,
                    "prog": 0}
        st.heap["P"] = self.parser_value(st, 0)
        st.facts[("tok", 0)] = entry.get("mask", self.dom.ALL) & ~self.dom.ERR & self.pre(nt)
        fl = {}
        for n in FLAGS:
            v = entry.get("flags", {}).get(n)
            fl[n] = ("flag", n)
            if v is not None and len(v) == 1:
                fl[n] = v[0]
        self.set_flags(st, fl)
        st.extra["fl"] = dict(fl)
        if entry.get("nl") in (0, 1):
            st.facts[("nl", 0)] = ("in", frozenset((entry["nl"],)))
        f = self.ref[nt]
        args = []
        env = {}
        first = body.nargs - len(self.implparams(f))
        for i, p in enumerate(f.params):
            if p == f.opts.get("topmark"):
                env[p] = ("span", -1)
                m = self.marker(-1, STARTF)
                self.set_pfield(st, "marker_stack", ("V", ("sym", "ms"), (m,)))
                st.extra["ms0"] = ("V", ("sym", "ms"), (m,))
                continue
            a = ("sym", "arg:" + p)
            vals = entry.get("args", {}).get(p)
            if vals is not None and len(vals) == 1:
                a = vals[0]
            args.append(a)
            env[p] = a
            if p in f.opts.get("expr", ()) and a[0] == "sym" and self.exprkinds:
                self.kindfact(st, a, self.exprkinds)
        I.push(st, body, ([("R", ("G", "P"), ())] if first else []) + args, None, -1)
        st.extra["rf"] = [RFrame(f, env, None, None)]
        st.extra["entryfl"] = dict(fl)
        st.extra["nt"] = nt
        st.nid = 1000
        return st

    def implparams(self, f):
        return [p for p in f.params if p != f.opts.get("topmark")]

    def construct(self, st0):
        """compose an entry point with the constructor: the parser value is what the constructor builds around the
        result of scanning the first token"""
        ks = [k for k in self.P.bodies if isinstance(k, str) and k.startswith("parser::parser::Parser") and k.endswith("::new")]
        if len(ks) != 1:
            raise Undecided("constructor not found")
        out = []
        for bad in (0, 1):
            st = st0.copy()
            top = st.frames.pop()
            self.I.push(st, self.P.bodies[ks[0]], [("sym", "source")], None, -1)
            evs = self.I.run(st, stop_depth=0)
            todo = [x for x in evs]
            n = 0
            while todo:
                s, ev = todo.pop()
                n += 1
                if n > 40:
                    raise Undecided("constructor")
                if ev[0] == "adv":
                    if s.extra.get("new0"):
                        raise Mismatch("consumes-more", "constructor scans more than one token")
                    s.extra["new0"] = 1
                    s.goals = {0: (ev[1], "RegExp")}
                    if bad:
                        self.dom.setmask(s, 0, self.dom.ERR)
                        v = err(("app", "scanerr", (0,)))
                    else:
                        v = ok(self.dom.token_value(0))
                    self.deliver(s, ev[2], ev[3], v)
                    todo.extend(self.I.run(s, stop_depth=0))
                elif ev[0] == "ret":
                    v = ev[1]
                    if not s.extra.get("new0"):
                        raise Undecided("constructor scans no token")
                    s.extra.pop("new0")
                    s.heap["P"] = v
                    s.frames.append(top.copy() if hasattr(top, "copy") else top)
                    s.extra["iev"] = None
                    want = {n: 0 for n in FLAGS}
                    have = self.get_flags(s)
                    for n in FLAGS:
                        if n in have and n in self.relevant(self.nt) and have[n] != want[n]:
                            self.report(s, "flags", "parser starts with %s = %s" % (n, self.showv(s, have[n])))
                    s.extra["fl"] = {n: 0 for n in FLAGS}
                    s.extra["entryfl"] = dict(s.extra["fl"])
                    s.facts[("nl", 0)] = ("in", frozenset((0,)))
                    p = self.prev_end(s)
                    if p is not None:
                        if p[3] != tuple({"line": 1, "col": 1, "idx": 0}.get(n) for n, _ in self.P.adts[MARKER]["v"][0]["f"]):
                            self.report(s, "spanend", "the end of the last consumed token does not start as the start of the source")
                        self.set_prev_end(s, -1)
                    h = self.pfield(s, "has_line_terminator")
                    if h is not None and h != 0 and h != ("nl", 0):
                        self.report(s, "nl", "parser starts with a wrong line-terminator flag")
                    out.append(s)
                elif ev[0] == "panic":
                    self.panic(s, ev)
                else:
                    raise Undecided("constructor: %s" % (ev[0],))
        return out

    def parser_value(self, st, k):
        if PARSER not in self.P.adts:
            raise Undecided("no parser type")
        fs = []
        for name, ty in self.P.adts[PARSER]["v"][0]["f"]:
            t = self.P.types[ty] if isinstance(ty, int) else {"s": str(ty), "k": "?"}
            p = t.get("p", "")
            if p.endswith("scanner::Scanner"):
                fs.append(("O", "scanner"))
            elif p == TOKEN:
                fs.append(self.dom.token_value(k))
            elif p == MARKER:
                fs.append(self.marker(k - 1, ENDF))
            elif name == "has_line_terminator":
                fs.append(("nl", k))
            elif name == "marker_stack":
                fs.append(("V", ("sym", "ms"), ()))
            elif name == "params_stack":
                fs.append(("V", ("sym", "ps"), ()))
            elif t.get("k") == "adt" and p in self.P.adts and not self.P.adts[p]["enum"] and p.startswith("parser::"):
                fs.append(("A", p, 0, tuple(("flag", n) for n, _ in self.P.adts[p]["v"][0]["f"])))
            else:
                fs.append(("sym", "P." + name))
        return ("A", PARSER, 0, tuple(fs))

    def marker(self, k, attrs):
        """the marker of where token k starts or ends"""
        return ("A", MARKER, 0, tuple(("tokattr", k, attrs.get(n)) for n, _ in self.P.adts[MARKER]["v"][0]["f"]))

    def set_prev_end(self, st, k):
        """parser fields holding the end of the last consumed token: it is token k now"""
        fs = list(self.pfields(st))
        for i, (_, ty) in enumerate(self.P.adts[PARSER]["v"][0]["f"]):
            if self.P.types[ty].get("p") == MARKER:
                fs[i] = self.marker(k, ENDF)
        st.heap["P"] = ("A", PARSER, 0, tuple(fs))

    def prev_end(self, st):
        for i, (_, ty) in enumerate(self.P.adts[PARSER]["v"][0]["f"]):
            if self.P.types[ty].get("p") == MARKER:
                return self.pfields(st)[i]
        return None

    def check_prev_end(self, st, what):
        v = self.prev_end(st)
        if v is not None and self.markpos(v) != ("end", st.extra["ic"] - 1):
            self.report(st, "spanend", "the end of the last consumed token is not kept up to date (%s)" % what)

    def ofield(self, st, v, i):
        """field of the scanner object: its position is the end of the token scanned last"""
        if v[1] == "scanner":
            n = self.P.adts[SCANNER]["v"][0]["f"][i][0]
            if n in SCANPOS:
                return ("tokattr", st.extra["ic"], SCANPOS[n])
        return ("O", v[1] + "." + str(i))

    def pfields(self, st):
        return st.heap["P"][3]

    def pfield(self, st, name):
        for i, (n, _) in enumerate(self.P.adts[PARSER]["v"][0]["f"]):
            if n == name:
                return self.pfields(st)[i]
        return None

    def set_pfield(self, st, name, v):
        fs = list(self.pfields(st))
        for i, (n, _) in enumerate(self.P.adts[PARSER]["v"][0]["f"]):
            if n == name:
                fs[i] = v
        st.heap["P"] = ("A", PARSER, 0, tuple(fs))

    def get_flags(self, st):
        """context flags held in the parser value"""
        out = {}
        for v in self.pfields(st):
            if type(v) is tuple and v and v[0] == "A" and v[1] in self.P.adts and v[1] != TOKEN and v[1].startswith("parser::"):
                for (n, _), x in zip(self.P.adts[v[1]]["v"][0]["f"], v[3]):
                    out[n] = x
        return out

    def set_flags(self, st, fl):
        fs = list(self.pfields(st))
        for i, v in enumerate(fs):
            if type(v) is tuple and v and v[0] == "A" and v[1] in self.P.adts and v[1] != TOKEN and v[1].startswith("parser::") \
                    and not self.P.adts[v[1]]["enum"]:
                fs[i] = ("A", v[1], 0, tuple(fl.get(n, x) for (n, _), x in zip(self.P.adts[v[1]]["v"][0]["f"], v[3])))
        st.heap["P"] = ("A", PARSER, 0, tuple(fs))

    def cur_index(self, st):
        c = self.pfield(st, "current")
        if type(c) is tuple and c[0] == "A" and c[1] == TOKEN:
            for x in c[3]:
                if type(x) is tuple and x and x[0] in ("tokty", "tokval", "tokattr"):
                    return x[1]
        return None

    # ------------------------------------------------------------------ scanner object models
    def install(self):
        I = self.I
        I.ofield = self.ofield
        for key in self.P.bodies:
            if not isinstance(key, str):
                continue
            if "scanner::scanner::Scanner" in key:
                if key.endswith("::new"):
                    I.objmodels[key] = lambda I, st, args, dest, target, work: [(st, ("O", "scanner"))]
                elif key.endswith("::next"):
                    I.objmodels[key] = self.m_next
                elif key.endswith("::save_state"):
                    I.objmodels[key] = self.m_save
                elif key.endswith("::restore_state"):
                    I.objmodels[key] = self.m_restore
            if key == "token::punctuators::Punctuator::to_str" or (key.startswith("<token::punctuators::Punctuator as ") and key.endswith("::to_string")):
                I.objmodels[key] = self.m_ptext

    def m_ptext(self, I, st, args, dest, target, work):
        v = I.deref(st, args[0])
        if type(v) is tuple and v[0] == "tokpunc":
            return [(st, ("tokstr", v[1]))]
        if type(v) is tuple and v[0] == "A":
            n = self.P.adts[PUNC]["v"][v[2]]["n"]
            from spec import tokens as T
            if n in T.PUNCT:
                return [(st, T.PUNCT[n])]
        raise Undecided("punctuator text")

    def m_next(self, I, st, args, dest, target, work):
        g = args[1]
        if type(g) is tuple and g and g[0] == "A":
            g = self.P.adts[g[1]]["v"][g[2]]["n"]
        work.emit(st, ("adv", g, dest, target))
        return None

    def m_save(self, I, st, args, dest, target, work):
        st.extra["saved"] = st.extra["ic"]
        return [(st, UNIT)]

    def m_restore(self, I, st, args, dest, target, work):
        if st.extra.get("saved") is None:
            return [(st, PanicVal("restore without save"))]
        st.extra["ic"] = st.extra["saved"]
        st.extra["saved"] = None
        return [(st, UNIT)]

    # ------------------------------------------------------------------ running one nonterminal
    def explore(self, nt, key, entry):
        vals = self.ref[nt].opts.get("values")
        if not vals:
            return self.explore1(nt, key, entry)
        tot = {"states": 0, "joint": 0, "time": 0}
        for combo in itertools.product(*vals.values()):
            e = dict(entry)
            e["args"] = dict(zip(vals, ((x,) for x in combo)))
            self.explore1(nt, key, e)
            for k in tot:
                tot[k] += self.stats.get(nt, {}).get(k, 0)
        self.stats[nt] = tot

    def explore1(self, nt, key, entry):
        """the exploration proper; a step that does not come back is cut off by a timer"""
        t0 = time.time()
        old = signal.signal(signal.SIGALRM, timeup)
        signal.setitimer(signal.ITIMER_REAL, self.MAXTIME + 5)
        try:
            self.explore2(nt, key, entry, t0)
        except TimeUp:
            if not (self.findings or self.panics):
                self.undec.append((nt, "time limit"))
            self.stats.setdefault(nt, {"states": 0, "joint": 0, "time": round(time.time() - t0, 2)})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def explore2(self, nt, key, entry, t0):
        I = self.I
        self.nt = nt
        self.key = key
        try:
            st = self.setup(nt, key, entry)
            todo = self.construct(st) if self.ref[nt].opts.get("entry") else [st]
        except (KeyError, Undecided, Mismatch) as e:
            self.undec.append((nt, "setup: %s" % (e,)))
            return
        visited = {}
        n = 0
        self.edges = {}
        limit = t0 + self.MAXTIME
        # shortest paths first (last in, first out among equals): a difference is met before the states it makes grow without end
        cnt = 0
        heap = []
        for s in todo:
            cnt -= 1
            heapq.heappush(heap, (self.priority(s), cnt, s))
        while heap:
            st = heapq.heappop(heap)[2]
            n += 1
            now = time.time()
            if n > self.MAXSTATES or now > limit:
                if not (self.findings or self.panics):
                    self.maxstates_hit.append(nt)
                    self.undec.append((nt, "state limit"))
                break
            if (self.findings or self.panics) and limit > now + self.GRACE:
                limit = now + self.GRACE
                signal.setitimer(signal.ITIMER_REAL, self.GRACE + 5)
            try:
                for s in self.step(st):
                    if s.extra["iev"] is not None and s.extra["rev"] is not None:
                        if s.extra["iev"][0] == "err" and s.extra["rev"][0] == "fail":
                            self.both_reject(s)
                            continue
                        try:
                            k = self.canon(s)
                        except Undecided as e:
                            self.undec.append((nt, "canon: %s" % e))
                            continue
                        if k in visited:
                            if self.path_has(s, k):
                                self.report(s, "no-progress", "loop without consuming input")
                            continue
                        visited[k] = 1
                        s.extra["anc"] = (s.extra.get("anc"), k, s.extra["prog"])
                    cnt -= 1
                    heapq.heappush(heap, (self.priority(s), cnt, s))
            except Mismatch as m:
                self.report(st, m.kind, m.detail)
            except Undecided as e:
                self.undec.append((nt, "%s" % e))
            except (TypeError, KeyError, ValueError, IndexError, AttributeError, RecursionError, ZeroDivisionError, OverflowError) as e:
                self.undec.append((nt, "internal: %r" % e))
        self.stats[nt] = {"states": n, "joint": len(visited), "time": round(time.time() - t0, 2)}

    def priority(self, s):
        e = s.extra
        return e["prog"] + max(0, e["rc"] - e["ic"])

    def path_has(self, s, k):
        """is k an ancestor of s with no progress in between?"""
        a = s.extra.get("anc")
        while a is not None:
            a2, k2, p = a
            if p != s.extra["prog"]:
                return False
            if k2 == k:
                return True
            a = a2
        return False

    def report(self, st, kind, detail):
        if st.extra.get("inexact"):
            self.undec.append((self.nt, "mismatch depends on list elements the analysis no longer tracks: " + detail))
            return
        k = "%s|%s|%s" % (self.nt, kind, detail)
        fl = {x[1].split("@")[0] for x in st.facts if type(x) is tuple and x and x[0] == "flag"}
        nls = {"nl"} if any(type(x) is tuple and x and x[0] == "nl" for x in st.facts) else set()
        fns = {self.short(x.body.key) for x in st.frames if x.body is not None}
        rfs = {x.fn.name for x in st.extra.get("rf", ())}
        ms = [self.dom.getmask(st, i) for c in (st.extra.get("ic", 0), st.extra.get("rc", 0)) for i in (c - 1, c) if i >= 0]
        word = any(m and not m & ~self.dom.WORDY for m in ms)
        f = self.findings.get(k)
        if f is not None:
            f.extra["word"] |= word
            f.extra["flags"] &= fl
            f.extra["nl"] &= nls
            f.extra["fns"] &= fns
            f.extra["rfs"] &= rfs
            return
        self.findings[k] = Finding(self.nt, kind, detail, self.trace(st), self.I.where(st) if st.frames else self.key,
                                   {"flags": fl, "nl": nls, "fns": fns, "rfs": rfs, "word": word})

    def trace(self, st):
        out = []
        for x in loglist(st.log):
            if x[0] == "tok":
                out.append(self.dom.show(self.dom.getmask(st, x[1])))
            elif x[0] == "nt":
                out.append("<%s>" % x[1])
            elif x[0] == "ntfail":
                out.append("<%s fails>" % x[1])
        return "[" + self.dom.show(self.dom.getmask(st, 0)) + "] " + " ".join(out)

    # ------------------------------------------------------------------ stepping
    def step(self, st):
        e = st.extra
        if e["iev"] is None:
            out = []
            st.steps = 0
            for s, ev in self.I.run(st, stop_depth=0):
                s.extra["iev"] = ev
                k = ev[0]
                if k == "panic":
                    self.panic(s, ev)
                    continue
                if k == "hang":
                    self.report(s, "hang", "loop without event")
                    continue
                if k == "undecided":
                    self.undec.append((self.nt, "%s at %s" % (ev[1], ev[2])))
                    continue
                if k == "ret":
                    out.extend(self.impl_ret(s, ev))
                    continue
                out.append(s)
            return out
        if e["rev"] is None:
            return self.run_ref(st)
        iev, rev = e["iev"], e["rev"]
        ik, rk = iev[0], rev[0]
        mode = e["mode"]
        ic, rc = e["ic"], e["rc"]
        if ik == "iter" and rk == "iter":
            return [s2 for s in self.do_iter_impl(st) for s2 in self.do_iter_ref(s)]
        if ik == "call" and self.is_pure(self.ntkeys[iev[1]]):
            return self.pure_impl(st)
        if rk == "nt" and self.is_pure(rev[2]):
            return self.pure_ref(st)
        if ik == "iter":
            return self.do_iter_impl(st)
        if rk == "iter":
            return self.do_iter_ref(st)
        # verdicts
        if ik == "err" and rk == "fail":
            self.both_reject(st)
            return []
        if ik == "err":
            # implementation rejected: the reference must fail on every continuation
            if rk == "take":
                return self.do_take(st)
            if rk == "nt":
                if not self.may_start(st, rev[2], rc):
                    return []
                if rc <= ic and self.inlinable_ref(st, rev[2]):
                    return self.inline_ref(st)
                return self.perform_call(st, False, True)
            raise Mismatch("rejects-valid", "rejects at %s where %s is valid" % (self.errdesc(iev), self.refpos(st)))
        if rk == "fail":
            if ik == "adv":
                return self.do_adv(st)
            if ik == "call":
                return self.perform_call(st, True, False)
            raise Mismatch("accepts-invalid", "accepts where the grammar rejects at %s%s" % (self.faildesc(st, rev), ""))
        if ik == "adv" and rk == "take":
            if ic == rc:
                return [s for s2 in self.do_adv(st) for s in self.sync_take(s2)]
            if ic < rc:
                return self.do_adv(st)
            return self.do_take(st)
        if ik == "adv":
            if ic - rc > self.MAXLEAD:
                raise Mismatch("consumes-more", "consumes tokens beyond %s" % self.refpos(st))
            return self.do_adv(st)
        if rk == "take":
            if rc < ic:
                return self.do_take(st)
            if ik == "call":
                if self.inlinable(st, iev[1]):
                    return self.inline_impl(st)
            if ik == "ret":
                return self.lead_take(st, "ends where the grammar continues")
            raise Mismatch("call-vs-token", "calls %s where the grammar consumes %s" % (self.short(iev[1]), self.tokdesc(st, rc)))
        # both at call/return
        if ik == "call" and rk == "nt":
            n = self.ntkeys[iev[1]]
            if n == rev[2]:
                if ic == rc:
                    return self.match_call(st)
                raise Mismatch("position", "calls %s at another position" % n)
            if ic == rc:
                if self.calls_at_start(rev[2], n):
                    return self.inline_ref(st)
                if self.inlinable(st, iev[1]):
                    return self.inline_impl(st)
                if self.inlinable_ref(st, rev[2]):
                    return self.inline_ref(st)
            elif ic > rc and self.inlinable_ref(st, rev[2]):
                return self.inline_ref(st)
            elif ic < rc and self.inlinable(st, iev[1]):
                return self.inline_impl(st)
            raise Mismatch("wrong-nonterminal", "parses %s where the grammar has %s" % (n, rev[2]))
        if ik == "call":
            if ic == rc and self.inlinable(st, iev[1]):
                return self.inline_impl(st)
            raise Mismatch("extra-call", "calls %s after the production ended" % self.short(iev[1]))
        if rk == "nt":
            if self.inlinable_ref(st, rev[2]):
                return self.inline_ref(st)
            raise Mismatch("missing-call", "ends without parsing %s" % rev[2])
        if ik == "ret" and rk == "ret":
            return self.match_ret(st)
        raise Undecided("event pair %s/%s" % (ik, rk))

    # ------------------------------------------------------------------ pure nonterminals and list iteration
    def is_pure(self, name):
        f = self.ref.get(name)
        return f is not None and f.opts.get("pure")

    def do_iter_impl(self, st):
        _, dest, target, r = st.extra["iev"]
        I = self.I
        it = I.deref(st, r)
        if st.extra.get("widened") and mentions_any(it, st.extra["widened"]):
            st.extra["inexact"] = 1     # what is known about these elements was given up
        out = []
        for s, x, it2 in I.models.step(I, st, it):
            I.store_ref(s, I.lastref(s, r)[0], it2)
            s.extra["iev"] = None
            if x is not None:
                s.extra["prog"] += 1
            self.deliver(s, dest, target, some(x[0]) if x is not None else NONE)
            out.append(s)
        return out

    def do_iter_ref(self, st):
        st.extra["rev"] = None
        st.extra["iterok"] = 1
        if st.extra["iev"] is not None and st.extra["iev"][0] == "err":
            st.extra["prog"] += 1
        return [st]

    def hasctor(self, f, args):
        return any(type(a) is tuple and a and a[0] == "A" for p, a in zip(f.params, args) if p[0] != "_")

    def pure_impl(self, st):
        iev = st.extra["iev"]
        name = self.ntkeys[iev[1]]
        f = self.ref[name]
        n = len(f.params)
        args = [self.I.deref(st, a) for a in iev[2]]
        args = args[len(args) - n:] if n else []
        if (self.hasctor(f, args) or name not in self.refpure()) and self.inlinable(st, iev[1], 3):
            return self.inline_impl(st)
        body = self.P.bodies[iev[1]]
        res = self.P.types[body.locals[0][0]].get("p") == RES
        out = []
        for s, okv, sym in self.pure_lookup(st, "i", name, args, res):
            s.extra["iev"] = None
            if okv:
                v = ok(sym) if res else sym
            else:
                v = err(("app", "nterr", (sym,)))
            self.deliver(s, iev[3], iev[4], v)
            out.append(s)
        return out

    def pure_ref(self, st):
        rev = st.extra["rev"]
        name = rev[2]
        key = self.keyof.get(name)
        if key is None or (self.hasctor(self.ref[name], rev[3]) or name not in self.implpure()) and self.inlinable_ref(st, name, 3):
            return self.inline_ref(st)
        body = self.P.bodies[key]
        res = self.P.types[body.locals[0][0]].get("p") == RES
        out = []
        for s, okv, sym in self.pure_lookup(st, "r", name, list(rev[3]), res):
            if okv:
                rf = s.extra["rf"] = [x.copy() for x in s.extra["rf"]]
                rf[-1].env[rev[1]] = sym
                rf[-1].pc += 1
                s.extra["rev"] = None
            else:
                s.extra["rev"] = ("fail", "in %s" % name, None, s.extra["rc"])
            out.append(s)
        return out

    def refpure(self):
        """pure nonterminals the reference of this task may apply (its own name only if it recurses);
        any other one the implementation applies is expanded"""
        if self._rp is None or self._rp[0] != self.nt:
            seen, todo, got = set(), [self.nt], set()
            while todo:
                n = todo.pop()
                if n in seen or n not in self.ref:
                    continue
                seen.add(n)
                for i in self.ref[n].code:
                    if i[0] in ("nt", "call"):
                        if self.is_pure(i[2]):
                            got.add(i[2])
                        todo.append(i[2])
            self._rp = (self.nt, got, seen)
        return self._rp[1]

    def implpure(self):
        """pure nonterminals applied somewhere below the task's function, not counting what the
        nonterminals the reference also calls do themselves"""
        if self._ip is None or self._ip[0] != self.nt:
            self.refpure()
            seen, todo, got = set(), [self.key], set()
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                for c in self.mentions(k):
                    n = self.ntkeys.get(c)
                    if n is not None and self.is_pure(n):
                        got.add(n)
                    if n is None or n not in self._rp[2]:
                        todo.append(c)
            self._ip = (self.nt, got)
        return self._ip[1]

    _ment = {}

    def mentions(self, key):
        """local functions and closures named in a body"""
        r = self._ment.get(key)
        if r is None:
            got = set()

            def scan(x):
                if type(x) is str:
                    if x in self.P.bodies:
                        got.add(x)
                elif type(x) is dict:
                    for y in x.values():
                        scan(y)
                elif type(x) is list:
                    for y in x:
                        scan(y)
            scan(self.P.fninfo.get(key))
            r = self._ment[key] = got
        return r

    _rp = _ip = None

    def pure_lookup(self, st, side, name, args, res):
        """outcome of a pure function on these arguments, the same for both sides"""
        f = self.ref[name]
        for n2, sd, a2, sym, o in st.extra.get("apps", ()):
            if n2 != name:
                continue
            same = True
            for p, x, y in zip(f.params, args, a2):
                if p[0] == "_":
                    continue
                if sd == side:
                    if x != y:
                        same = False
                elif self.differ(st, x if side == "i" else y, y if side == "i" else x, "") is not None:
                    same = False
                if not same:
                    break
            if same:
                return [(st, o, sym)]
        st.nid += 1
        sym = ("sym", st.nid)
        st.note("nt", name, -1)
        apps = st.extra.get("apps", ())
        out = []
        if res and f.opts.get("fails", 1):
            s = st.copy()
            s.note("ntfail", name)
            s.extra["apps"] = apps + ((name, side, tuple(args), sym, 0),)
            out.append((s, 0, sym))
        st.extra["apps"] = apps + ((name, side, tuple(args), sym, 1),)
        self.post_facts(st, name, sym)
        out.append((st, 1, sym))
        return out

    def both_reject(self, st):
        """position and text carried by the implementation's error"""
        v = st.extra["iev"][1]
        rev = st.extra["rev"]
        if type(v) is tuple and v and v[0] == "app" and v[1] == "scanerr" and rev[1] == "UnexpectedToken" and rev[3] < v[2][0]:
            return self.report(st, "error", "the offending token %s is masked by a lexical error further on" % (
                self.tokdesc(st, rev[3])))
        if not (type(v) is tuple and v and v[0] == "A" and v[1] == ERROR):
            return              # the scanner's or a nested production's own error, passed through
        self.nerr += 1
        ks = {}
        et = None
        for (n, _), x in zip(self.P.adts[ERROR]["v"][0]["f"], v[3]):
            if n in ("line", "col"):
                want = {"line": "line_num", "col": "col"}[n]
                x = self.I.deref(st, x)
                if type(x) is tuple and x and x[0] == "tokattr" and x[2] == want:
                    ks[n] = x[1]
                elif type(x) is tuple and x and x[0] == "fld" and x[3:] == (self.fieldidx(MARKER, 0, n),):
                    ks[n] = x[1]        # start of a node already built
                else:
                    self.lasttext = x
                    return self.report(st, "error", "error %s is not the position of a token" % n)
            elif n == "errortype":
                et = x
        if len(set(ks.values())) > 1:
            return self.report(st, "error", "error line and column are those of different tokens")
        k = next(iter(ks.values()), None)
        if type(k) is not int:
            return
        want = rev[2]
        if k is not None and want is not None and k not in want:
            want = want[-1]
            m = self.dom.getmask
            if not (m(st, k) == m(st, want) == self.dom.EOF):
                return self.report(st, "error", "%s is placed at %s instead of the offending token %s" % (
                    rev[1], self.tokdesc(st, k), self.tokdesc(st, want)))
        if type(et) is tuple and et and et[0] == "A" and et[1] == ERRT and self.P.adts[ERRT]["v"][et[2]]["n"] == "UnexpectedToken":
            t = self.I.deref(st, et[3][0])
            if k is not None and not self.text_of_token(st, t, k):
                return self.report(st, "error", "unexpected-token error carries another text than that of the token")

    nerr = 0

    def text_of_token(self, st, t, k):
        if t == ("tokstr", k):
            return True
        m = self.dom.getmask(st, k) & ~self.dom.EOF
        if m == 0:
            return True                 # the end of input has no text
        one = self.onetext(st, k)
        if one is not None and t == one:
            return True
        if type(t) is str and t == "null" and not m & ~self.dom.mask(lambda a: a[0] == "Z"):
            return True
        if t == ("app", "to_string", (("toknum", k),)) or t == ("app", "to_string", (("tokval", k),)):
            return True
        if t == ("app", "show", (("tokval", k),)):
            return True
        self.lasttext = t
        return False

    def lead_take(self, st, why):
        # implementation returned but the reference still wants tokens: only a difference if the reference can accept
        e = st.extra
        if e["rc"] - e["ic"] > self.MAXLEAD:
            raise Mismatch("consumes-less", why)
        return self.do_take(st)

    def short(self, key):
        return key.split("::")[-1]

    def tokdesc(self, st, k):
        return self.dom.show(self.dom.getmask(st, k))

    def refpos(self, st):
        return "token %s" % self.tokdesc(st, st.extra["rc"])

    def errdesc(self, iev):
        return str(self.errname(iev[1]))

    def errname(self, v):
        if type(v) is tuple and v and v[0] == "A" and v[1] == ERROR:
            for (n, _), x in zip(self.P.adts[ERROR]["v"][0]["f"], v[3]):
                if n == "errortype" and type(x) is tuple and x[0] == "A":
                    return self.P.adts[ERRT]["v"][x[2]]["n"]
        if type(v) is tuple and v and v[0] == "app":
            return v[1]
        return "error"

    def faildesc(self, st, rev):
        return "%s (%s)" % (rev[1] or "syntax error", self.tokdesc(st, rev[3]))

    # ------------------------------------------------------------------ panics
    def panic(self, s, ev):
        if s.extra.get("inexact"):
            self.undec.append((self.nt, "panic depends on list elements the analysis no longer tracks"))
            return
        f = Finding(self.nt, "panic", "%s in %s" % (ev[1], ev[2].split(" (")[0].split("::")[-1]
                                                   if "{closure" not in ev[2] else ev[2].split(" (")[0].split("::", 3)[-1]),
                    self.trace(s), ev[2])
        k = f.key()
        if k not in self.panics:
            self.panics[k] = f

    # ------------------------------------------------------------------ implementation events
    def impl_ret(self, s, ev):
        """classify the returned value as ok / err"""
        v = ev[1]
        if type(v) is tuple and v and v[0] == "A" and v[1] == RES:
            if v[2] == 1:
                s.extra["iev"] = ("err", v[3][0])
                return [s]
            s.extra["iev"] = ("ret", v[3][0])
            return [s]
        body = self.P.bodies[self.key]
        ty = self.P.types[body.locals[0][0]]
        if ty.get("p") == RES and is_term(v):
            out = []
            ds = self.P.discr.get(RES, [0, 1])
            for val, s2 in self.I.split(s, ("discr", v, RES), [0, 1]):
                s2.extra["iev"] = ("ret", ("fld", v, 0, 0)) if val == 0 else ("err", ("fld", v, 1, 0))
                out.append(s2)
            return out
        s.extra["iev"] = ("ret", v)
        return [s]

    def next_index(self, st, k):
        n = k + 1
        if n > st.extra["mx"]:
            st.extra["mx"] = n
        return n

    def split_next(self, st, k):
        """(state, is_error) for the token after index k"""
        dom = self.dom
        n = self.next_index(st, k)
        m = dom.getmask(st, n)
        cm = dom.getmask(st, k)
        out = []
        if cm & dom.EOF:
            # nothing follows the end of input
            if cm != dom.EOF:
                s = st.copy()
                dom.setmask(s, k, dom.EOF)
                if m & dom.EOF:
                    dom.setmask(s, n, dom.EOF)
                    out.append((s, 0))
                dom.setmask(st, k, cm & ~dom.EOF)
            else:
                if m & dom.EOF:
                    dom.setmask(st, n, dom.EOF)
                    return [(st, 0)]
                return []
        if m & dom.ERR:
            if m != dom.ERR:
                s = st.copy()
                dom.setmask(s, n, dom.ERR)
                out.append((s, 1))
                dom.setmask(st, n, m & ~dom.ERR)
                out.append((st, 0))
            else:
                out.append((st, 1))
        else:
            out.append((st, 0))
        return out

    def do_adv(self, st):
        out = []
        iev = st.extra["iev"]
        k = st.extra["ic"]
        for s, e in self.split_next(st, k):
            n = k + 1
            s.extra["iev"] = None
            self.goal(s, "i", n, iev[1])
            d = len(s.frames) - 1
            if e:
                v = err(("app", "scanerr", (n,)))
            else:
                v = ok(self.dom.token_value(n))
                s.extra["ic"] = n
                if self.dom.getmask(s, k) != self.dom.EOF:
                    s.extra["prog"] += 1
                s.note("tok", n)
            self.deliver(s, iev[2], iev[3], v)
            out.append(s)
        return out

    def deliver(self, s, dest, target, v):
        from .interp import Work
        w = Work()
        if s.frames[-1].native is not None:
            self.I.deliver(s, dest, target, v, w, 0)
            if w.out or len(w) != 1:
                raise Undecided("native continuation")
            return
        if target < 0:
            raise Undecided("diverging call")
        self.I.write_place(s, len(s.frames) - 1, dest, v)
        s.frames[-1].bb = target

    def do_take(self, st):
        out = []
        rev = st.extra["rev"]
        k = st.extra["rc"]
        for s, e in self.split_next(st, k):
            n = k + 1
            if e:
                s.extra["rev"] = ("fail", "lexical", None, n)
            else:
                self.goal(s, "r", n, rev[2])
                s.extra["rc"] = n
                s.extra["rev"] = None
                rf = s.extra["rf"] = [f.copy() for f in s.extra["rf"]]
                rf[-1].env[rev[1]] = self.dom.token_value(k)
                rf[-1].pc += 1
            out.append(s)
        return out

    def sync_take(self, s):
        # after the implementation advanced, let the reference take the same token
        if s.extra["rev"] is not None and s.extra["rev"][0] == "take":
            return self.do_take(s)
        return [s]

    # ------------------------------------------------------------------ lexical goals
    def goal(self, s, side, n, g):
        goals = dict(s.goals)
        cur = goals.get(n, (None, None))
        cur = (g, cur[1]) if side == "i" else (cur[0], g)
        goals[n] = cur
        s.goals = goals

    def goal_check(self, s, n, what):
        """token n is about to matter: were both sides scanning it with the same goal?"""
        g = s.goals.get(n)
        if g is None or g[0] is None or g[1] is None or g[0] == g[1] or g[1] == "Any":
            return
        if self.dom.getmask(s, n) & self.dom.SLASHY:
            raise Mismatch("goal", "scans the token after %s with goal %s instead of %s (%s)" % (
                self.prevdesc(s, n), g[0], g[1], what))

    def prevdesc(self, s, n):
        l = [x for x in loglist(s.log)]
        prev = "the start"
        for x in l:
            if x[0] == "tok" and x[1] == n - 1:
                prev = self.tokdesc(s, n - 1)
            if x[0] == "nt" and x[2] == n - 1:
                prev = x[1]
        if n - 1 == 0:
            prev = self.tokdesc(s, 0)
        return prev

    # ------------------------------------------------------------------ calls
    def inlinable(self, st, key, k=1):
        return sum(1 for f in st.frames if f.body is not None and f.body.key == key) < k and len(st.frames) < 14

    def inlinable_ref(self, st, name, k=1):
        return sum(1 for f in st.extra["rf"] if f.fn.name == name) < k and len(st.extra["rf"]) < 10

    def calls_at_start(self, r, n):
        return n in self.startcalls().get(r, ())

    _sc = None

    def startcalls(self):
        """nt -> nts it may delegate to (transitively over reference call graph)"""
        if self._sc is None:
            g = {}
            for name, f in self.ref.items():
                g[name] = {i[2] for i in f.code if i[0] in ("nt", "call")}
            ch = True
            while ch:
                ch = False
                for a in g:
                    new = set(g[a])
                    for b in list(g[a]):
                        if not self.ref[b].is_nt:
                            new |= g[b]
                    if new != g[a]:
                        g[a] = new
                        ch = True
            self._sc = g
        return self._sc

    def inline_impl(self, st):
        iev = st.extra["iev"]
        body = self.P.bodies[iev[1]]
        self.I.push(st, body, list(iev[2]), iev[3], iev[4])
        st.extra["iev"] = None
        return [st]

    def inline_ref(self, st):
        rev = st.extra["rev"]
        _, dst, name, args, fl = rev
        rf = st.extra["rf"] = [f.copy() for f in st.extra["rf"]]
        f = self.ref[name]
        env = dict(zip(f.params, args))
        rf.append(RFrame(f, env, dst, dict(st.extra["fl"])))
        st.extra["fl"] = dict(fl)
        st.extra["rev"] = None
        return [st]

    def relevant(self, name):
        return self.relevance.get(name, FLAGS)

    def pre(self, nt):
        """tokens a nonterminal may be entered at"""
        p = self.ref[nt].opts.get("pre")
        return self.classmask(p) if p else self.dom.ALL

    def may_start(self, st, name, k):
        """can nonterminal `name` succeed on a token of the class of token k?"""
        f = self.first.get(name)
        return f is None or bool(self.dom.getmask(st, k) & f)

    COVER = ("SpreadElement", "AssignmentPattern", "ObjectPattern", "ArrayPattern", "ArrayAssignmentPattern", "RestElement")

    def node_kinds(self):
        """which Node variants each nonterminal may produce (flow-insensitive fixpoint over the reference program);
        None = not bounded"""
        K = {n: set() for n in self.ref}
        env = {n: {} for n in self.ref}
        expr = set()
        ch = True
        while ch:
            ch = False
            expr = (K.get("parse_assignment_expr", set()) | K.get("parse_expression", set()) | set(self.COVER))
            for n, f in self.ref.items():
                E = env[n]
                for p in f.params:
                    E[p] = set(expr) if p in f.opts.get("expr", ()) else {None}

                def val(a):
                    return E.get(a[1], set()) if a[0] == "v" else set()

                y = f.opts.get("yields")
                if y:
                    s = set()
                    for k in y:
                        s |= K[k] if k in K else {k}
                    if not s <= K[n]:
                        K[n] |= s
                        ch = True
                for i in f.code if not y else ():
                    if i[0] == "mov":
                        s = val(i[2])
                    elif i[0] == "prim" and i[2].startswith("make:Node."):
                        s = {i[2][10:]}
                    elif i[0] == "prim" and i[2] in ("some", "unwrap"):
                        s = val(i[3][0])
                    elif i[0] == "prim":
                        s = {None}
                    elif i[0] in ("nt", "call"):
                        s = K[i[2]]
                    elif i[0] == "ret":
                        s = val(i[1])
                        if not s <= K[n]:
                            K[n] |= s
                            ch = True
                        continue
                    else:
                        continue
                    o = E.setdefault(i[1], set())
                    if not s <= o:
                        o |= s
                        ch = True
        self.kinds = {n: k for n, k in K.items() if k and None not in k}
        self.exprkinds = expr if None not in expr else set()
        return self.kinds

    kinds = {}
    exprkinds = ()

    def kindfact(self, s, sym, kinds):
        adt = self.adt("Node")
        s.facts[("discr", sym, adt)] = ("in", frozenset(self.P.discr[adt][self.P.vindex[(adt, v)]] for v in kinds
                                                       if (adt, v) in self.P.vindex))

    def first_sets(self):
        """FIRST sets of the nonterminals, from the reference program alone"""
        import copy
        edges = {}
        base = {}
        for nt, f in self.ref.items():
            if not f.is_nt or f.opts.get("pure"):
                continue
            st = State()
            st.extra = {"ic": 0, "rc": 0, "mx": 0, "iev": None, "rev": None, "fl": {n: ("flag", n) for n in FLAGS},
                        "unsc": None, "mode": None, "prog": 0, "rf": [RFrame(f, {p: ("sym", "arg:" + p) for p in f.params}, None, None)]}
            st.nid = 1000
            st.facts[("tok", 0)] = self.dom.ALL & ~self.dom.ERR
            todo = [st]
            b, ed = 0, []
            n = 0
            try:
                while todo:
                    n += 1
                    if n > 3000:
                        raise Undecided("first set")
                    s = todo.pop()
                    for s2 in self.run_ref(s):
                        r = s2.extra["rev"]
                        m = self.dom.getmask(s2, 0)
                        if r[0] == "take" or r[0] == "ret":
                            b |= m
                        elif r[0] == "nt":
                            if self.is_pure(r[2]):
                                b |= m
                            elif self.ref[r[2]].opts.get("nullable"):
                                b |= m
                            else:
                                ed.append((r[2], m))
                        elif r[0] == "iter":
                            b |= m
            except Undecided:
                b, ed = self.dom.ALL, []
            base[nt], edges[nt] = b, ed
        first = dict(base)
        ch = True
        while ch:
            ch = False
            for nt, ed in edges.items():
                m = first[nt]
                for x, k in ed:
                    m |= first.get(x, self.dom.ALL) & k
                if m != first[nt]:
                    first[nt] = m
                    ch = True
        self.first = first
        self.goal_accept = first
        return first

    def match_call(self, st):
        e = st.extra
        iev, rev = e["iev"], e["rev"]
        name = rev[2]
        f = self.ref[name]
        pure = f.opts.get("pure")
        if not pure:
            if self.dom.getmask(st, e["ic"]) & ~self.pre(name):
                raise Mismatch("precondition", "enters %s at %s" % (name, self.dom.show(
                    self.dom.getmask(st, e["ic"]) & ~self.pre(name))))
            ci = self.cur_index(st)
            if ci != e["ic"] or e.get("saved") is not None:
                raise Mismatch("position", "calls %s while the current token is not the last one scanned" % name)
            self.goal_at_call(st, name, e["ic"])
            # context flags
            fl = self.get_flags(st)
            for n in FLAGS:
                if n in self.relevant(name) and n in fl:
                    for b, s in self.same_scalar(st, fl[n], rev[4].get(n)):
                        if not b:
                            raise Mismatch("flags", "parses %s with %s = %s instead of %s" % (
                                name, n, self.showv(s, fl[n]), self.showv(s, rev[4].get(n))))
            self.check_prev_end(st, "before %s" % name)
            h = self.pfield(st, "has_line_terminator")
            if h is not None and h != ("nl", e["ic"]):
                if not self.same_scalar1(st, h, ("nl", e["ic"])):
                    raise Mismatch("nl", "line-terminator flag is stale when %s is parsed" % name)
        iargs = list(iev[2])
        ps = self.implparams(f)
        iargs = iargs[len(iargs) - len(ps):] if ps else []
        if f.opts.get("topmark"):
            ms = self.pfield(st, "marker_stack")
            if type(ms) is not tuple or ms[0] != "V" or not ms[2]:
                raise Undecided("marker stack")
            d = self.differ(st, ("A", SPAN, 0, (ms[2][-1], 0)), rev[3][f.params.index(f.opts["topmark"])], "start of %s" % name)
            if d:
                raise Mismatch("span", d)
        for p, a, b in zip(ps, iargs, [x for x, q in zip(rev[3], f.params) if q in ps]):
            a = self.I.deref(st, a)
            d = self.differ(st, a, b, "argument %s of %s" % (p, name))
            if d:
                raise Mismatch("argument", d)
        self.record_call(st, name, iargs, f)
        return self.perform_call(st, True, True)

    def goal_at_call(self, st, name, n):
        g = st.goals.get(n)
        if g is None or g[0] is None or g[1] is None or g[0] == g[1] or g[1] == "Any":
            return
        acc = self.goal_accept.get(name, self.dom.SLASHY)
        if self.dom.getmask(st, n) & self.dom.SLASHY & acc:
            raise Mismatch("goal", "scans the token after %s with goal %s instead of %s (before %s)" % (
                self.prevdesc(st, n), g[0], g[1], name))

    def record_call(self, st, name, args, f):
        m = self.dom.getmask(st, st.extra["ic"])
        r = self.callrec.setdefault(name, {"mask": 0, "flags": {}, "args": {}, "nl": set()})
        r["mask"] |= m
        fl = self.get_flags(st)
        for n in FLAGS:
            v = fl.get(n)
            s = r["flags"].setdefault(n, set())
            s |= self.values_of(st, v)
        for p, a in zip(f.params, args):
            s = r["args"].setdefault(p, set())
            if type(a) in (int, str):
                s.add(a)
            else:
                s.add(None)
        if st.extra["ic"] == 0:
            self.entrycalls.setdefault(self.nt, set()).add(name)

    def values_of(self, st, v):
        if type(v) is int:
            return {v}
        if type(v) is tuple and v and v[0] == "flag":
            f = st.facts.get(v)
            if f is not None and f[0] == "in":
                return set(f[1])
        return {0, 1}

    def perform_call(self, st, doi, dor):
        e = st.extra
        iev, rev = e["iev"], e["rev"]
        name = self.ntkeys[iev[1]] if doi else rev[2]
        f = self.ref.get(name)
        opts = f.opts if f is not None else {}
        out = []
        st.nid += 1
        sym = ("sym", st.nid)
        pos = e["ic"] if doi else e["rc"]
        result = True
        if doi:
            body = self.P.bodies[iev[1]]
            ty = self.P.types[body.locals[0][0]]
            result = ty.get("p") == RES
        n = e["mx"] + 2
        pure = opts.get("pure")
        okst = st
        if result and opts.get("fails", 1):
            # failing branch
            s = st.copy()
            s.note("ntfail", name)
            if dor:
                s.extra["rev"] = ("fail", "in %s" % name, None, pos)
            if doi:
                s.extra["iev"] = None
                self.deliver(s, iev[3], iev[4], err(("app", "nterr", (sym,))))
            if doi and dor or not dor:
                out.append(s)
            # reference alone failing while the implementation already rejected: consistent, drop
        s = okst
        first = self.first.get(name)
        if first is not None and not pure:
            m = self.dom.getmask(s, pos)
            if not m & first:
                return out
            self.dom.setmask(s, pos, m & first)
        if not pure:
            s.extra["mx"] = n
            s.note("nt", name, n - 1)
            s.facts[("tok", n)] = self.dom.ALL & ~self.dom.ERR
            if not opts.get("nullable"):
                s.extra["prog"] += 1
            if opts.get("ends"):
                pass
        else:
            s.note("nt", name, -1)
        self.post_facts(s, name, sym)
        if doi:
            s.extra["iev"] = None
            if not pure:
                s.extra["ic"] = n
                self.set_pfield(s, "current", self.dom.token_value(n))
                self.set_prev_end(s, n - 1)
                self.set_pfield(s, "has_line_terminator", ("nl", n))
            v = ok(sym) if result else sym
            for fn in opts.get("mutates", ()):
                fl = self.get_flags(s)
                fl[fn] = ("flag", "%s@%d" % (fn, s.nid))
                self.set_flags(s, fl)
            self.deliver(s, iev[3], iev[4], v)
        if dor:
            if not pure:
                s.extra["rc"] = n
            rf = s.extra["rf"] = [x.copy() for x in s.extra["rf"]]
            rf[-1].env[rev[1]] = sym
            rf[-1].pc += 1
            s.extra["rev"] = None
            for fn in opts.get("mutates", ()):
                fl = dict(s.extra["fl"])
                fl[fn] = ("flag", "%s@%d" % (fn, s.nid))
                s.extra["fl"] = fl
        out.append(s)
        return out

    first = {}
    shapes = {}

    def post_facts(self, s, name, sym):
        f = self.ref.get(name)
        sh = f.opts.get("shape") if f is not None else None
        if sh:
            adt = self.adt(sh[0])
            s.facts[("discr", sym, adt)] = ("in", frozenset(self.P.discr[adt][self.P.vindex[(adt, v)]] for v in sh[1:]))
        elif name in self.kinds:
            self.kindfact(s, sym, self.kinds[name])
        if f is not None and f.opts.get("strings"):
            s.facts[("strv", sym)] = ("in", frozenset(f.opts["strings"]))
        for t, f in self.shapes.get(name, ()):
            s.facts[subst(t, sym)] = f

    # ------------------------------------------------------------------ comparison
    def same_scalar(self, st, a, b):
        a, b = self.scalar(st, a), self.scalar(st, b)
        if a == b:
            return [(1, st)]
        if type(a) is int and type(b) is int:
            return [(0, st)]
        # enumerate
        out = []
        try:
            for va, s in self.I.split(st.copy(), a, [0, 1]):
                for vb, s2 in self.I.split(s.copy(), b, [0, 1]):
                    out.append((int(va == vb), s2))
        except Undecided:
            return [(0, st)]
        return out

    def same_scalar1(self, st, a, b):
        return all(x for x, s in self.same_scalar(st, a, b))

    def scalar(self, st, v):
        if type(v) is tuple and v:
            f = st.facts.get(v)
            if type(f) is tuple and f[0] == "in" and len(f[1]) == 1:
                return next(iter(f[1]))
        return v

    def showv(self, st, v):
        v = self.scalar(st, v)
        if type(v) is tuple and v and v[0] == "flag":
            return "inherited %s" % v[1]
        if type(v) is tuple and v and v[0] == "A":
            ad = self.P.adts.get(v[1])
            if ad:
                n = v[1].split("::")[-1]
                return n + ("." + ad["v"][v[2]]["n"] if ad["enum"] else "")
        if type(v) is tuple and v and v[0] == "tokstr":
            return "text of token %s" % self.tokdesc(st, v[1])
        if type(v) is tuple and v and v[0] in ("sym", "fld"):
            return "parsed value"
        return repr(v)[:80]

    def spanstart(self, v):
        """token index of the start marker of a span value; None unknown"""
        if type(v) is tuple and v and v[0] == "span":
            return v[1]
        if type(v) is tuple and v and v[0] == "A" and v[1] == SPAN:
            m = v[3][0]
            if type(m) is tuple and m and m[0] == "A" and m[1] == MARKER:
                ks = set()
                for (n, _), x in zip(self.P.adts[MARKER]["v"][0]["f"], m[3]):
                    want = {"line": "line_num", "col": "col", "idx": "start"}.get(n)
                    if type(x) is tuple and x and x[0] == "tokattr" and x[2] == want:
                        ks.add(x[1])
                    else:
                        ks.add(("bad", repr(x)[:60]))
                if len(ks) == 1:
                    return ks.pop()
                return ("bad", "mixed marker")
            if is_term(m):
                return ("m", m)
        if is_term(v):
            return ("s", v)
        return ("bad", repr(v)[:60])

    def markpos(self, m):
        """("start" or "end", token) of a marker"""
        if type(m) is tuple and m and m[0] == "A" and m[1] == MARKER:
            for w, attrs in (("start", STARTF), ("end", ENDF)):
                ks = set()
                for (n, _), x in zip(self.P.adts[MARKER]["v"][0]["f"], m[3]):
                    ks.add(x[1] if type(x) is tuple and x and x[0] == "tokattr" and x[2] == attrs.get(n) else None)
                if len(ks) == 1 and None not in ks:
                    return w, ks.pop()
        return None

    def spanend(self, v):
        """where a span value ends"""
        if type(v) is tuple and v and v[0] == "A" and v[1] == SPAN:
            return self.markpos(v[3][1])
        if type(v) is tuple and v and v[0] == "span" and len(v) == 3:
            if type(v[1]) is int and v[1] > v[2]:
                return "start", v[1]
            return "end", v[2]
        return None

    def enddesc(self, st, x):
        if x is None:
            return "an unrelated position"
        k = x[1]
        if x[0] == "start":
            return "the start of token %s" % self.tokdesc(st, k)
        if k == st.extra["ic"]:
            return "the end of the current token %s" % self.tokdesc(st, k)
        return "the end of %s" % ("the last consumed token" if k == st.extra["ic"] - 1 else
                                  "a token %d back" % (st.extra["ic"] - k) if k < st.extra["ic"] else "a later token")

    def differ(self, st, a, b, path):
        """None when equal, else a description"""
        I = self.I
        if type(a) is tuple and a and a[0] == "R":
            a = I.deref(st, a)
        if type(b) is tuple and b and b[0] == "span":
            if b[1] is None:
                return None
            x = self.spanstart(a)
            if len(b) == 3:
                r = self.differ(st, a, b[:2], path)
                if r is not None:
                    return r
                want = ("end", b[2])
                if type(b[1]) is int and b[1] > b[2]:
                    want = ("start", b[1])
                have = self.spanend(a)
                if have == want:
                    return None
                return "%s: span ends at %s instead of %s" % (path, self.enddesc(st, have), self.enddesc(st, want))
            if x == ("s", b):
                return None
            if type(b[1]) is tuple and b[1] and b[1][0] == "fld" or type(b[1]) is tuple:
                # span of a sub-node
                y = ("s", b[1])
                if x == y or x == ("m", ("fld", b[1], 0, 0)):
                    return None
                return "%s: span does not start where %s" % (path, "its first operand does")
            if x == b[1]:
                return None
            return "%s: span starts at %s instead of %s" % (path, self.startdesc(st, x), self.startdesc(st, b[1]))
        a, b = self.scalar(st, a), self.scalar(st, b)
        if a == b:
            return None
        if type(a) is tuple and a and a[0] == "tokstr":
            t = self.onetext(st, a[1])
            if t is not None:
                a = t
        if type(b) is tuple and b and b[0] == "tokstr":
            t = self.onetext(st, b[1])
            if t is not None:
                b = t
        if a == b:
            return None
        if type(a) is tuple and a and type(b) is tuple and b:
            if a[0] == "A" and b[0] == "A":
                if a[1] != b[1] or a[2] != b[2]:
                    return "%s: builds %s instead of %s" % (path, self.showv(st, a), self.showv(st, b))
                fs = self.P.adts[a[1]]["v"][a[2]]["f"] if a[1] in self.P.adts else [(str(i), 0) for i in range(len(a[3]))]
                for (n, _), x, y in zip(fs, a[3], b[3]):
                    r = self.differ(st, x, y, path + "." + str(n))
                    if r:
                        return r
                return None
            if a[0] == "T" and b[0] == "T" and len(a[1]) == len(b[1]):
                for i, (x, y) in enumerate(zip(a[1], b[1])):
                    r = self.differ(st, x, y, path + "." + str(i))
                    if r:
                        return r
                return None
            if a[0] == "A" and is_term(b):
                return self.differ_term(st, b, a, path, True)
            if b[0] == "A" and is_term(a):
                return self.differ_term(st, a, b, path, False)
            if a[0] == "V" or b[0] == "V":
                return self.differ_vec(st, a, b, path)
            if a[0] == "S" or b[0] == "S":
                from .models import sparts
                try:
                    pa, ia = sparts(a)
                    pb, ib = sparts(b)
                except Undecided:
                    return "%s: %s instead of %s" % (path, self.showv(st, a), self.showv(st, b))
                if pa == pb and len(ia) == len(ib):
                    for x, y in zip(ia, ib):
                        if x != y:
                            return "%s: text differs" % path
                    return None
                return "%s: text differs" % path
            la, lb = lin(a), lin(b)
            if la is not None and la == lb:
                return None
        if type(a) in (int,) or type(b) in (int,):
            if type(a) in (int, tuple) and type(b) in (int, tuple):
                try:
                    if self.same_scalar1(st, a, b):
                        return None
                except Undecided:
                    pass
        if type(a) is str and is_term(b) or type(b) is str and is_term(a):
            t, c = (b, a) if type(a) is str else (a, b)
            f = st.facts.get(("strv", t))
            if f == ("in", frozenset((c,))):
                return None
        return "%s: is %s instead of %s" % (path, self.showv(st, a), self.showv(st, b))

    def startdesc(self, st, x):
        if type(x) is int:
            return "token %s%s" % (self.tokdesc(st, x), " (current)" if x == st.extra["ic"] else "")
        return "an enclosing marker" if x and x[0] in ("m", "s") else "an unrelated position"

    def onetext(self, st, k):
        m = self.dom.getmask(st, k)
        if m and m & (m - 1) == 0:
            a = self.dom.atoms[m.bit_length() - 1]
            if a[0] == "Z":
                return "null"
            if a[0] == "N":
                return ("app", "to_string", (("toknum", k),))
            return self.dom.text_of(a)
        return None

    def differ_term(self, st, t, v, path, swapped):
        """term against constructor"""
        f = st.facts.get(("discr", t, v[1]))
        ds = self.P.discr.get(v[1])
        enum = self.P.adts.get(v[1], {}).get("enum")
        d = self.dom.discr(self.I, st, t, v[1])
        known = False
        if not enum:
            known = True
        elif d is not None:
            r = self.I.split(st.copy(), d, [ds[v[2]]])
            known = all(x[0] == ds[v[2]] for x in r)
        elif f is not None and f[0] == "in" and f[1] == frozenset((ds[v[2]],)):
            known = True
        if not known:
            x, y = (self.showv(st, v), "the parsed value") if swapped else ("the parsed value", self.showv(st, v))
            return "%s: is %s instead of %s" % (path, x, y)
        for i, x in enumerate(v[3]):
            y = self.I.term_field(st, t, v[2], i)
            n = self.P.adts[v[1]]["v"][v[2]]["f"][i][0] if v[1] in self.P.adts else i
            r = self.differ(st, x, y, path + "." + str(n)) if swapped else self.differ(st, y, x, path + "." + str(n))
            if r:
                return r
        return None

    def differ_vec(self, st, a, b, path):
        if is_term(a):
            a = ("V", a, ())
        if is_term(b):
            b = ("V", b, ())
        if not (a[0] == "V" and b[0] == "V"):
            return "%s: is %s instead of %s" % (path, self.showv(st, a), self.showv(st, b))
        a, b = self.normvec(st, a), self.normvec(st, b)
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return "%s: list has %s instead of %s" % (path, self.veclen(a), self.veclen(b))
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            r = self.differ(st, x, y, path + "[%d]" % i)
            if r:
                return r
        return None

    def normvec(self, st, v):
        """expand a prefix known to be empty"""
        pre, items = v[1], v[2]
        out = []
        for x in items:
            if type(x) is tuple and x and x[0] == "splice":
                if st.facts.get(("empty", x[1])) == ("in", frozenset((1,))):
                    continue
            out.append(x)
        if pre is not None and st.facts.get(("empty", pre)) == ("in", frozenset((1,))):
            pre = None
        if pre is None and out and type(out[0]) is tuple and out[0] and out[0][0] == "splice":
            pre = out[0][1]
            out = out[1:]
        return ("V", pre, tuple(out))

    def veclen(self, v):
        return ("unknown prefix + " if v[1] is not None else "") + "%d items" % len(v[2])

    # ------------------------------------------------------------------ return
    def match_ret(self, st):
        e = st.extra
        iev, rev = e["iev"], e["rev"]
        nt = self.nt
        opts = self.ref[nt].opts
        if not opts.get("pure"):
            if e["ic"] != e["rc"]:
                raise Mismatch("position", "production ends after %s token(s)" % (
                    "too many" if e["ic"] > e["rc"] else "too few"))
            if self.cur_index(st) != e["ic"] or e.get("saved") is not None:
                raise Mismatch("position", "current token is not the last one scanned")
            self.goal_check(st, e["ic"], "end of production")
        d = self.differ(st, iev[1], rev[1], "result")
        if d:
            kind = "spanend" if "span ends" in d else "span" if "span starts" in d or "span does not" in d else "target" if "assign_target_type" in d else "tree"
            self.report(st, kind, d)
        if opts.get("pure"):
            return []
        fl = self.get_flags(st)
        for n in FLAGS:
            if n in fl and not self.same_scalar1(st, fl[n], e["fl"].get(n)):
                self.report(st, "flags", "leaves %s = %s instead of %s" % (n, self.showv(st, fl[n]), self.showv(st, e["fl"].get(n))))
        ps = self.pfield(st, "params_stack")
        if ps is not None and ps != ("V", ("sym", "ps"), ()):
            self.report(st, "flags", "parameter stack is not restored")
        self.check_prev_end(st, "at the end")
        ms = self.pfield(st, "marker_stack")
        if ms is not None and ms != e.get("ms0", ("V", ("sym", "ms"), ())):
            self.report(st, "span", "marker stack is left unbalanced")
        h = self.pfield(st, "has_line_terminator")
        if h is not None and not self.same_scalar1(st, h, ("nl", e["ic"])):
            self.report(st, "nl", "line-terminator flag is stale at the end")
        if e["prog"] == 0 and not opts.get("nullable") and not opts.get("called_at_operator"):
            if e["ic"] == 0:
                self.report(st, "no-progress", "succeeds without consuming input")
        return []

    # ------------------------------------------------------------------ reference side
    def run_ref(self, st):
        out = []
        todo = [st]
        while todo:
            s = todo.pop()
            try:
                r = self.ref_step(s)
            except Elsewhere:
                continue
            if r is None:
                out.append(s)
            else:
                todo.extend(r)
        return out

    def ref_step(self, st):
        """run straight-line reference code until an event (None) or a fork (list of states)"""
        e = st.extra
        steps = 0
        rf = e["rf"] = [f.copy() for f in e["rf"]]
        while True:
            steps += 1
            if steps > 5000:
                raise Undecided("reference runs away")
            f = rf[-1]
            ins = f.fn.code[f.pc]
            k = ins[0]
            if k == "jmp":
                f.pc = ins[1]
            elif k == "mov":
                f.env[ins[1]] = self.rv(f, ins[2])
                f.pc += 1
            elif k == "br":
                v = self.rv(f, ins[1])
                if type(v) is int:
                    f.pc = ins[2] if v else ins[3]
                    continue
                res = self.I.split(st, v, [0, 1])
                outs = []
                for val, s in res:
                    rf2 = s.extra["rf"] = [x.copy() for x in s.extra["rf"]]
                    rf2[-1].pc = ins[2] if val else ins[3]
                    outs.append(s)
                return outs
            elif k == "prim":
                name = ins[2]
                if name == "uncons" and not e.get("iterok"):
                    v = self.asvec(self.rv(f, ins[3][0]))
                    if v[1] is not None:
                        e["rev"] = ("iter",)
                        self.prune(f)
                        return None
                e["iterok"] = None
                args = [self.rv(f, a) for a in ins[3]]
                kw = {n: self.rv(f, a) for n, a in ins[4].items()}
                r = self.prim(st, f, name, args, kw)
                if r is FAILED:
                    return None
                if type(r) is list:
                    outs = []
                    if len(r) == 1 and r[0][0] is st:
                        f.env[ins[1]] = r[0][1]
                        f.pc += 1
                        continue
                    for s, v in r:
                        if v is FAILED:
                            outs.append(s)
                            continue
                        rf2 = s.extra["rf"] = [x.copy() for x in s.extra["rf"]]
                        rf2[-1].env[ins[1]] = v
                        rf2[-1].pc += 1
                        outs.append(s)
                    return outs
                f.env[ins[1]] = r
                f.pc += 1
            elif k == "take":
                g = self.rv(f, ins[2])
                e["rev"] = ("take", ins[1], g)
                self.prune(f)
                return None
            elif k == "nt":
                args = [self.rv(f, a) for a in ins[3]]
                fl = dict(e["fl"])
                for n, a in ins[4].items():
                    fl[n] = self.rv(f, a)
                e["rev"] = ("nt", ins[1], ins[2], tuple(args), fl)
                self.prune(f)
                return None
            elif k == "call":
                g = self.ref[ins[2]]
                args = [self.rv(f, a) for a in ins[3]]
                saved = None
                if ins[4]:
                    saved = dict(e["fl"])
                    fl = dict(e["fl"])
                    for n, a in ins[4].items():
                        fl[n] = self.rv(f, a)
                    e["fl"] = fl
                if len(args) != len(g.params):
                    raise Undecided("arity of %s" % ins[2])
                self.prune(f)
                rf.append(RFrame(g, dict(zip(g.params, args)), ins[1], saved))
            elif k == "fail":
                a = self.rv(f, ins[1]) if ins[1] is not None else None
                # where the error may be placed: `at`, by default the token the reference looks at, or `or_at`
                kw = {k: self.rv(f, x)[1] for k, x in (ins[2] or {}).items()}
                ps = {kw.get("at", e["rc"]), kw.get("or_at", kw.get("at", e["rc"]))}
                e["rev"] = ("fail", a, tuple(sorted(ps)), e["rc"])
                e["fenv"] = None
                return None
            elif k == "ret":
                v = self.rv(f, ins[1])
                if len(rf) == 1:
                    e["rev"] = ("ret", v)
                    return None
                rf.pop()
                if f.flags is not None:
                    mut = f.fn.opts.get("mutates", ()) if f.fn.is_nt else ()
                    fl = dict(f.flags)
                    for n in mut:
                        fl[n] = e["fl"][n]
                    e["fl"] = fl
                rf[-1].env[f.dst] = v
                rf[-1].pc += 1
            else:
                raise Undecided("reference instruction %s" % k)

    def prune(self, f):
        live = f.fn.live[f.pc]
        f.env = {k: v for k, v in f.env.items() if k in live}

    def rv(self, f, a):
        if a[0] == "c":
            return a[1]
        return f.env[a[1]]

    def classmask(self, texts):
        key = tuple(y for x in texts for y in (x if type(x) is tuple else (x,)))
        texts = key
        m = self._cm.get(key)
        if m is None:
            from spec import tokens as T
            d = self.dom
            m = 0
            for t in texts:
                if t in d.text2punc:
                    m |= 1 << d.idx[("P", d.text2punc[t])]
                elif t in T.KEYWORDS:
                    m |= 1 << d.idx[("K", t)]
                elif t.startswith("id:"):
                    m |= 1 << d.idx[("I", t[3:])]
                elif t in ("true", "false"):
                    m |= 1 << d.idx[("B", t)]
                elif t == "null":
                    m |= 1 << d.idx[("Z",)]
                elif t == "#tmpl:head":
                    m |= d.mask(lambda a: a[0] == "T" and a[1] == 1)
                elif t == "#tmpl:nosubst":
                    m |= d.mask(lambda a: a == ("T", 1, 1))
                elif t == "#tmpl:tail":
                    m |= d.mask(lambda a: a[0] == "T" and a[2] == 1)
                elif t == "#tmpl:cont":
                    m |= d.mask(lambda a: a[0] == "T" and a[1] == 0)
                elif t == "str:use strict":
                    m |= 1 << d.idx[("S", "use strict")]
                elif t[0] == "#":
                    kind = {"#id": "I", "#kw": "K", "#str": "S", "#num": "N", "#tmpl": "T", "#regex": "R", "#eof": "E",
                            "#punc": "P", "#bool": "B", "#null": "Z"}[t]
                    m |= d.mask(lambda a: a[0] == kind)
                else:
                    raise Undecided("class %s" % t)
            self._cm[key] = m
        return m

    _cm = {}

    def testmask(self, st, k, m):
        cur = self.dom.getmask(st, k)
        a, b = cur & m, cur & ~m
        if not b:
            return [(st, 1)]
        if not a:
            return [(st, 0)]
        s = st.copy()
        self.dom.setmask(s, k, a)
        self.dom.setmask(st, k, b)
        return [(s, 1), (st, 0)]

    def prim(self, st, f, name, args, kw):
        I = self.I
        e = st.extra
        if name == "at":
            return self.testmask(st, e["rc"], self.classmask(args))
        if name == "mark":
            return ("span", e["rc"])
        if name == "nl":
            return ("nl", e["rc"])
        if name == "peek_at" or name == "peek_nl":
            outs = []
            for s, er in self.split_next(st, e["rc"]):
                if er:
                    s.extra["rev"] = ("fail", "lexical", None, e["rc"] + 1)
                    outs.append((s, FAILED))
                    continue
                if name == "peek_nl":
                    outs.append((s, ("nl", e["rc"] + 1)))
                else:
                    outs.extend(self.testmask(s, e["rc"] + 1, self.classmask(args)))
            if len(outs) == 1 and outs[0][1] is FAILED:
                return FAILED
            return outs
        if name == "flag":
            return e["fl"][args[0]]
        if name == "deviation":
            self.notes.add(args[0])
            return UNIT
        if name == "setflag":
            fl = dict(e["fl"])
            fl[args[0]] = args[1]
            e["fl"] = fl
            return UNIT
        if name == "text":
            return ("tokstr", self.tokidx(args[0]))
        if name == "value":
            return ("tokval", self.tokidx(args[0]))
        if name == "attr":
            return ("tokattr", self.tokidx(args[0]), args[1])
        if name == "cur":
            return self.dom.token_value(e["rc"])
        if name == "tuple":
            return ("T", tuple(args))
        if name == "list":
            return mkvec(None, args)
        if name == "push":
            v = self.asvec(args[0])
            return mkvec(v[1], v[2] + (args[1],))
        if name == "extend":
            v, w = self.asvec(args[0]), self.asvec(args[1])
            if w[1] is None:
                return mkvec(v[1], v[2] + w[2])
            if v[1] is None and not v[2]:
                return w
            return mkvec(v[1], v[2] + (("splice", w[1]),) + w[2])
        if name == "length":
            return I.length(st, self.asvec(args[0]))
        if name == "empty":
            v = self.asvec(args[0])
            if v[2]:
                return 0
            return 1 if v[1] is None else ("empty", v[1])
        if name == "item":
            if type(args[0]) is tuple and args[0] and args[0][0] == "T":
                return args[0][1][args[1]]
            return self.ref_item(st, args[0], args[1])
        if name == "last":
            v = self.asvec(args[0])
            if not v[2]:
                raise Undecided("last of unknown list")
            return v[2][-1]
        if name == "pop":
            v = self.asvec(args[0])
            return mkvec(v[1], v[2][:-1])
        if name == "uncons":
            v = self.asvec(args[0])
            if v[1] is None:
                return ("T", (v[2][0], mkvec(None, v[2][1:])))
            if v[2]:
                outs = []
                for val, s in I.split(st.copy(), ("empty", v[1]), [0, 1]):
                    if val == 1:
                        outs.append((s, ("T", (v[2][0], mkvec(None, v[2][1:])))))
                    else:
                        outs.append((s, ("T", (("head", v[1]), mkvec(("tail", v[1]), v[2])))))
                return outs
            return ("T", (("head", v[1]), mkvec(("tail", v[1]), v[2])))
        if name == "some":
            return some(args[0])
        if name == "Ok" or name == "ok":
            return ok(args[0])
        if name == "is_some" or name == "is_none":
            want = 1 if name == "is_some" else 0
            return [(s, int(vi == want)) for s, vi, fs in I.models.cases(I, st, args[0], OPT)]
        if name == "unwrap":
            v = args[0]
            if type(v) is tuple and v[0] == "A":
                return v[3][0]
            return ("fld", v, 1, 0)
        if name == "proj":
            return I.proj(st, args[0], ("f", 0, args[1]))
        if name == "add":
            if type(args[0]) is str or type(args[0]) is tuple and args[0] and args[0][0] in ("S", "tokstr"):
                from .models import sconcat
                return sconcat(args[0], args[1])
            return I.arith(st, "Add", args[0], args[1])
        if name == "sub":
            return I.arith(st, "Sub", args[0], args[1])
        if name in ("cmpEq", "cmpNotEq"):
            outs = []
            for s, v in I.models.equal(I, st, args[0], args[1]):
                if name == "cmpNotEq":
                    v = 1 - v if type(v) is int else ("un", "Not", v)
                outs.append((s, v))
            return outs
        if name in ("cmpLt", "cmpGt", "cmpLtE", "cmpGtE"):
            op = {"cmpLt": "Lt", "cmpGt": "Gt", "cmpLtE": "Le", "cmpGtE": "Ge"}[name]
            a, b = args
            if type(a) is int and type(b) is int:
                return int({"Lt": a < b, "Gt": a > b, "Le": a <= b, "Ge": a >= b}[op])
            return I.cmpterm(st, op, a, b)
        if name == "is_":
            adt, vi = self.variant(args[1])
            v = args[0]
            if type(v) is tuple and v and v[0] == "A":
                return int(v[1] == adt and v[2] == vi)
            ds = self.P.discr[adt]
            d = self.dom.discr(I, st, v, adt) or ("discr", v, adt)
            return [(s, int(x == ds[vi])) for x, s in I.split(st, d, [ds[vi]])]
        if name == "get":
            adt, vi = self.variant(args[1])
            v = args[0]
            i = self.fieldidx(adt, vi, args[2])
            if type(v) is tuple and v and v[0] == "A":
                if v[1] != adt or v[2] != vi:
                    raise Undecided("get %s of %s" % (args[1], self.showv(st, v)))
                return v[3][i]
            return I.term_field(st, v, vi, i)
        if name == "span_of":
            return ("span", args[0])
        if name == "is_text":
            # text of a token or string value equals constant
            return [(s, v) for s, v in I.models.equal(I, st, args[0], args[1])]
        if name == "class_is":
            # class test on an earlier token
            return self.testmask(st, self.tokidx(args[0]), self.classmask(args[1:]))
        if name == "opaque":
            return ("app", args[0], tuple(args[1:]))
        if name == "iter":
            return self.asvec(args[0])
        if name == "iternext":
            v = args[0]
            it = ("I", "vec", v)
            outs = []
            for s, x, it2 in I.models.step(I, st, it):
                outs.append((s, ("T", (NONE if x is None else some(x[0]), it2[2]))))
            return outs
        if name == "itersome":
            return int(args[0][1][0][2] == 1)
        if name == "iteritem":
            return args[0][1][0][3][0]
        if name == "iterrest":
            return args[0][1][1]
        if name.startswith("make:"):
            return self.make(st, name[5:], args, kw)
        raise Undecided("reference primitive %s" % name)

    def ref_item(self, st, v, i):
        v = self.asvec(v)
        if v[1] is None and type(i) is int:
            return v[2][i]
        if i == 0:
            return ("head", v[1])
        raise Undecided("item")

    def tokidx(self, t):
        if type(t) is tuple and t[0] == "A" and t[1] == TOKEN:
            return t[3][0][1]
        raise Undecided("token")

    def asvec(self, v):
        if type(v) is tuple and v and v[0] == "V":
            return v
        if is_term(v):
            return mkvec(v, ())
        raise Undecided("list %r" % (v,))

    def adt(self, n):
        c = self.adtname.get(n)
        if not c:
            raise Undecided("type %s does not exist" % n)
        for p in c:
            if p.startswith(NODEAST):
                return p
        return c[0]

    def variant(self, s):
        a, _, v = s.partition(".")
        if a == "S":
            return self.adt(v), 0
        adt = self.adt(a)
        if not v:
            return adt, 0
        if (adt, v) not in self.P.vindex:
            raise Undecided("variant %s does not exist" % s)
        return adt, self.P.vindex[(adt, v)]

    def fieldidx(self, adt, vi, name):
        if isinstance(name, int):
            return name
        for i, (n, _) in enumerate(self.P.adts[adt]["v"][vi]["f"]):
            if n.replace("r#", "") == name.rstrip("_"):
                return i
        raise Undecided("field %s of %s does not exist" % (name, adt))

    def make(self, st, s, args, kw):
        a, v = s.split(".")
        if a == "S":
            adt, vi = self.adt(v), 0
        else:
            adt, vi = self.variant(s)
        fs = self.P.adts[adt]["v"][vi]["f"]
        vals = [None] * len(fs)
        for i, x in enumerate(args):
            vals[i] = x
        for n, x in kw.items():
            vals[self.fieldidx(adt, vi, n)] = x
        for i, (n, ty) in enumerate(fs):
            if vals[i] is None:
                if n == "span":
                    vals[i] = ("span", None)
                else:
                    raise Undecided("field %s of %s missing in the reference" % (n, s))
        for i, (n, ty) in enumerate(fs):
            v = vals[i]
            if n == "span" and type(v) is tuple and len(v) == 2 and v[0] == "span" and type(v[1]) is int:
                vals[i] = ("span", v[1], st.extra["rc"] - 1)
        return ("A", adt, vi, tuple(vals))

    # ------------------------------------------------------------------ canonical form
    def canon(self, st):
        return Canon(self, st).key()


class _Failed:
    pass


FAILED = _Failed()


def mentions_any(v, syms):
    return type(v) is tuple and (v in syms or any(mentions_any(x, syms) for x in v))


def subst(t, sym):
    if t == "$":
        return sym
    if type(t) is tuple:
        return tuple(subst(x, sym) for x in t)
    return t


class Canon:
    """canonical key of a joint state (renaming of tokens and symbols, generalisation of common accumulated values)"""

    def __init__(self, prod, st):
        self.p = prod
        self.st = st
        self.ren = {}
        self.toks = {}
        self.seen = set()

    def key(self):
        st, p = self.st, self.p
        self.generalise()
        e = st.extra
        parts = []
        # anchors
        base = min(e["ic"], e["rc"])
        self.tk(e["ic"])
        self.tk(e["rc"])
        nf = len(st.frames)
        for i, f in enumerate(st.frames):
            if f.body is None:
                parts.append(("n", f.native, self.c(f.data), f.dest, f.target))
                continue
            live = self.live(f, i == nf - 1)
            parts.append((f.body.key, f.bb, f.dest, f.target,
                          tuple((k, self.c(f.loc[k])) for k in sorted(live) if f.loc.get(k) is not None)))
        parts.append(self.c(st.heap.get("P")))
        for f in e["rf"]:
            live = f.fn.live[f.pc] if f is not e["rf"][-1] else f.fn.live[f.pc]
            parts.append((f.fn.name, f.pc, f.dst, tuple((k, self.c(f.env[k])) for k in sorted(live) if k in f.env),
                          tuple(sorted((k, self.c(v)) for k, v in f.flags.items())) if f.flags else None))
        parts.append(tuple((k, self.c(v)) for k, v in sorted(e["fl"].items())))
        parts.append(self.cev(e["iev"]))
        parts.append(self.cev(e["rev"]))
        ap = []
        for n, sd, a, sym, o in e.get("apps", ()):
            if all(self.alive(x) for x in a if is_term(x)) and any(is_term(x) for x in a):
                ap.append((n, tuple(self.c(x) for x in a), self.c(sym), o))
        parts.append(tuple(ap))
        parts.append((e["ic"] - e["rc"], e.get("inexact"), e.get("saved") is not None and self.tk(e["saved"])))
        # look-ahead tokens beyond the cursors are live
        for k in range(base, e["mx"] + 1):
            if ("tok", k) in st.facts or k in st.goals:
                self.tk(k)
        # facts over live things
        fs = []
        dead = []
        for t, f in st.facts.items():
            if t[0] == "tok":
                if t[1] in self.toks:
                    fs.append((("tok", self.toks[t[1]]), f))
            elif t[0] in ("nl",):
                if t[1] in self.toks and t[1] >= base or ("n", t) in self.ren:
                    fs.append((("nl", self.toks.get(t[1])), self.cf(f)))
            elif t[0] == "flag":
                fs.append((self.ren.get(("n", t), t), self.cf(f)))
            elif self.alive(t):
                fs.append((self.c(t), self.cf(f)))
            else:
                dead.append(t)
        for t in dead:
            del st.facts[t]
        parts.append(tuple(sorted(fs, key=repr)))
        gl = []
        for k, g in st.goals.items():
            if k >= base and k in self.toks:
                gl.append((self.toks[k], g[0] == g[1] or g[1] == "Any" or g[0] is None, g if g[0] is None or g[1] is None else None))
        parts.append(tuple(sorted(gl, key=repr)))
        return tuple(parts)

    def cev(self, ev):
        if ev is None:
            return None
        if ev[0] == "call":
            return ("call", ev[1], tuple(self.c(x) for x in ev[2]), ev[3], ev[4])
        if ev[0] == "adv":
            return ("adv", str(ev[1]), ev[2], ev[3])
        if ev[0] == "iter":
            return ("iter",) + ev[1:3]
        if ev[0] == "ret":
            return ("ret", self.c(ev[1]))
        if ev[0] == "err":
            return ("err",)
        if ev[0] == "take":
            return ("take", ev[1], ev[2])
        if ev[0] == "nt":
            return ("nt", ev[1], ev[2], tuple(self.c(x) for x in ev[3]), tuple((k, self.c(v)) for k, v in sorted(ev[4].items())))
        if ev[0] == "fail":
            return ("fail",)
        return ev

    def cf(self, f):
        if type(f) is tuple:
            return (f[0], tuple(sorted(f[1], key=repr)))
        return f

    def live(self, f, top):
        b = f.body
        li = b.liveness()
        t = b.blocks[f.bb][1]
        if t[0] == "call":
            tgt = t[4]
            L = set(li[tgt]) if tgt >= 0 else set()
            if len(t[3]) == 1:
                L.discard(t[3][0])
        else:
            L = set(li[f.bb])
        for a in b.addr:
            if a in f.loc:
                L.add(a)
        return L

    def tk(self, k):
        if k not in self.toks:
            self.toks[k] = len(self.toks)
        return self.toks[k]

    def c(self, v):
        t = type(v)
        if t is not tuple:
            if t is int or t is str or v is None:
                return v
            return str(v)
        if not v:
            return v
        k = v[0]
        if k in ("tokty", "tokval", "tokstr", "tokpunc", "toknum", "nl"):
            return (k, self.tk(v[1]))
        if k == "tokattr" or k == "tab":
            return (k, self.tk(v[1]), v[2])
        if k == "span":
            return (k, self.tk(v[1]) if type(v[1]) is int else self.c(v[1])) + ((self.tk(v[2]),) if len(v) == 3 else ())
        if k == "sym":
            if type(v[1]) is str:
                self.seen.add(v)
                return v
            r = self.ren.get(v)
            if r is None:
                r = self.ren[v] = ("sym", len(self.ren))
            return r
        if k == "flag" and "@" in v[1]:
            r = self.ren.get(v)
            if r is None:
                r = self.ren[v] = ("flag", "@%d" % len(self.ren))
            return r
        return tuple(self.c(x) for x in v)

    def alive(self, t):
        """does the fact talk about a live symbol only?"""
        ok = [False]

        def go(x):
            if type(x) is tuple and x:
                if x[0] == "sym":
                    if type(x[1]) is str:
                        if x[1][:4] == "arg:" and x not in self.seen:
                            return False
                        ok[0] = True
                        return True
                    if x in self.ren:
                        ok[0] = True
                        return True
                    return False
                if x[0] in ("tokty", "tokval", "tokstr", "tokpunc", "toknum", "nl", "tokattr", "tab"):
                    if x[1] in self.toks:
                        ok[0] = True
                        return True
                    return False
                if x[0] in ("strx",):
                    if x[1] in self.toks:
                        ok[0] = True
                        return True
                    return False
                return all(go(y) for y in x[1:])
            return True
        return go(t) and ok[0]

    # ---------------------------------------------------------------- generalisation
    def rebase(self):
        """forget the consumed part of lists that are being iterated over"""
        st = self.st
        e = st.extra
        depth = {}

        def chain(t):
            n = 0
            while type(t) is tuple and t and t[0] == "tail":
                t = t[1]
                n += 1
            return t, n

        def scan(v):
            if type(v) is tuple and v:
                if v[0] == "V" and v[1] is not None:
                    r, n = chain(v[1])
                    depth[r] = min(depth.get(r, n), n)
                if v[0] in ("A",):
                    for x in v[3]:
                        scan(x)
                elif v[0] in ("T",):
                    for x in v[1]:
                        scan(x)
                elif v[0] in ("V", "C"):
                    for x in v[2]:
                        scan(x)
                elif v[0] == "I":
                    for x in v[2:]:
                        scan(x)
        for i, f in enumerate(st.frames):
            if f.body is None:
                scan(f.data)
            else:
                for k in self.live(f, False):
                    scan(f.loc.get(k))
        for f in e["rf"]:
            live = f.fn.live[f.pc]
            for k, v in f.env.items():
                if k in live:
                    scan(v)
        roots = {r: n for r, n in depth.items() if n >= 1}
        new = {}
        for r in roots:
            st.nid += 1
            new[r] = ("sym", st.nid)
            if r in e.get("widened", ()):
                e["widened"] |= {new[r]}

        def sub(v):
            if type(v) is not tuple or not v:
                return v
            if v[0] == "tail":
                r, n = chain(v)
                if r in roots and n >= roots[r]:
                    t = new[r]
                    for _ in range(n - roots[r]):
                        t = ("tail", t)
                    return t
                return v
            if v[0] == "len":
                r, n = chain(v[1])
                if r in roots:
                    return mklin(((("len", new[r]), 1),), roots[r] - n)
                return v
            if v[0] == "sum":
                d, k = {}, v[2]
                for t, c in v[1]:
                    l = lin(sub(t))
                    if l is None:
                        return v
                    for t2, c2 in l[0]:
                        d[t2] = d.get(t2, 0) + c * c2
                    k += c * l[1]
                return mklin(tuple(sorted(((t, c) for t, c in d.items() if c), key=repr)), k)
            if v[0] == "head":
                r, n = chain(v[1])
                return ("head", sub(v[1])) if r in roots and n >= roots[r] else v
            return tuple(sub(x) for x in v)
        if roots:
            self.mapall(sub)
            facts = {}
            for t, f in st.facts.items():
                if t[0] == "empty":
                    r, n = chain(t[1])
                    if r in roots and n < roots[r]:
                        continue
                facts[sub(t)] = f
            st.facts = facts
        # counters of enumerated iteration
        ctr = []

        def findc(v):
            if type(v) is tuple and v:
                if v[0] == "I" and v[1] == "enum":
                    ctr.append(v[3])
                elif v[0] in ("R",):
                    return
                for x in v:
                    if type(x) is tuple:
                        findc(x)
        for f in st.frames:
            if f.body is not None:
                for k in self.live(f, False):
                    findc(f.loc.get(k))
        for c in ctr if e["iev"][0] == "iter" else ():
            if c == 0 or type(c) is tuple and c[0] == "sym":
                continue
            l = lin(c)
            if l is None:
                continue
            st.nid += 1
            cs = ("sym", st.nid)
            syms = {t for t, _ in l[0]}

            def subc(v):
                if v == c and type(v) is tuple:
                    return cs
                if type(v) is not tuple or not v:
                    return v
                if v[0] == "I" and v[1] == "enum" and v[3] == c:
                    return ("I", "enum", subc(v[2]), cs)
                if v in syms and len(syms) == 1 and l[0][0][1] == 1:
                    return mklin(((cs, 1),), -l[1])
                if v[0] == "sum":
                    ts = {t for t, _ in v[1]}
                    if (syms and ts & syms) or (not syms and any(t[0] == "len" for t in ts)):
                        d = {t: k for t, k in v[1]}
                        for t, k in l[0]:
                            d[t] = d.get(t, 0) - k
                        d[cs] = d.get(cs, 0) + 1
                        return mklin(tuple(sorted(((t, k) for t, k in d.items() if k), key=repr)), v[2] - l[1])
                    return v
                return tuple(subc(x) for x in v)
            self.mapall(subc)

    def mapall(self, fn):
        st = self.st
        for f in st.frames:
            if f.body is None:
                f.data = fn(f.data)
            else:
                for k in list(f.loc):
                    v = f.loc[k]
                    if type(v) is tuple:
                        f.loc[k] = fn(v)
        rf = st.extra["rf"] = [f.copy() for f in st.extra["rf"]]
        for f in rf:
            for k in list(f.env):
                v = f.env[k]
                if type(v) is tuple:
                    f.env[k] = fn(v)
        iev, rev = st.extra["iev"], st.extra["rev"]
        if iev and iev[0] == "call":
            st.extra["iev"] = iev[:2] + (tuple(fn(x) for x in iev[2]),) + iev[3:]
        if iev and iev[0] == "ret":
            st.extra["iev"] = ("ret", fn(iev[1]))
        if rev and rev[0] == "ret":
            st.extra["rev"] = ("ret", fn(rev[1]))
        if rev and rev[0] == "nt":
            st.extra["rev"] = rev[:3] + (tuple(fn(x) for x in rev[3]),) + rev[4:]
        if st.extra.get("apps"):
            st.extra["apps"] = tuple((n, sd, tuple(fn(x) for x in a), sym, o) for n, sd, a, sym, o in st.extra["apps"])

    def generalise(self):
        """replace values accumulated identically on both sides by fresh symbols"""
        st, p = self.st, self.p
        e = st.extra
        self.rebase()
        if e["iev"][0] == "err" or e["rev"][0] == "fail":
            self.widen(e["iev"][0] == "err")
            return
        ivals = []
        for i, f in enumerate(st.frames):
            if f.body is None:
                ivals.append(f.data)
                continue
            for k in self.live(f, False):
                v = f.loc.get(k)
                if v is not None:
                    ivals.append(v)
        rvals = []
        for f in e["rf"]:
            live = f.fn.live[f.pc]
            for k, v in f.env.items():
                if k in live:
                    rvals.append(v)
        A = {}
        for v in ivals:
            self.collect(self.norm(v), A, 0)
        B = {}
        for v in rvals:
            self.collect(v, B, 0)
        if not A or not B:
            return
        cands = []
        nB = [b for b in B]
        for a in A:
            for b in nB:
                if self.match(a, b):
                    cands.append((a, b, A[a], B[b]))
                    break
        got = {x for c in cands for x in c[:2]}
        offs = []
        for a in A:
            if a[0] != "V" or a in got:
                continue
            for b in nB:
                if b[0] != "V" or b in got:
                    continue
                r = self.suffix(a, b)
                if r:
                    offs.append((a, b) + r)
                    got.add(a)
                    got.add(b)
                    break
        if not cands and not offs:
            return
        # outermost first
        cands.sort(key=lambda x: -size(x[0]))
        repl = []
        for a, b, da, db in cands:
            st.nid += 1
            sym = ("sym", st.nid)
            if a[0] == "V":
                self.vecfacts(a, sym)
            else:
                self.nodefacts(a, sym)
            repl.append((a, b, sym))
        ra = {}
        rb = {}
        for a, b, na, nb in offs:
            ra[a], rb[b] = na, nb
        for a, b, s in repl:
            ra.setdefault(a, ("V", s, ()) if a[0] == "V" else s)
            rb.setdefault(b, ("V", s, ()) if b[0] == "V" else s)
        for f in st.frames:
            if f.body is None:
                f.data = self.rep(f.data, ra)
            else:
                for k in list(f.loc):
                    v = f.loc[k]
                    if type(v) is tuple:
                        f.loc[k] = self.rep(v, ra)
        for f in e["rf"]:
            for k in list(f.env):
                v = f.env[k]
                if type(v) is tuple:
                    f.env[k] = self.rep(v, rb)
        iev, rev = e["iev"], e["rev"]
        if iev[0] == "call":
            e["iev"] = iev[:2] + (tuple(self.rep(x, ra) for x in iev[2]),) + iev[3:]
        elif iev[0] == "ret":
            e["iev"] = ("ret", self.rep(iev[1], ra))
        if rev[0] == "nt":
            e["rev"] = rev[:3] + (tuple(self.rep(x, rb) for x in rev[3]),) + rev[4:]
        elif rev[0] == "ret":
            e["rev"] = ("ret", self.rep(rev[1], rb))

    VMIN = 2
    DMIN = 0
    NMIN = int(__import__("os").environ.get("NMIN", "12"))

    def suffix(self, a, b):
        """the shorter list is the end of the longer one: share a symbol for the common part"""
        fa, fb = self.flat(a), self.flat(b)
        n = min(len(fa), len(fb))
        if len(fa) == len(fb) or n < 1:
            return None
        short = a if len(fa) == n else b
        if not (n >= self.VMIN or (short[1] is not None and n >= 2)):
            return None
        for x, y in zip(fa[-n:], fb[-n:]):
            sx, sy = (type(t) is tuple and t and t[0] == "splice" for t in (x, y))
            if sx or sy:
                if x != y:
                    return None
            elif self.p.differ(self.st, x, y, "x") is not None:
                return None
        self.st.nid += 1
        sym = ("sym", self.st.nid)
        self.vecfacts(short, sym)

        def new(v, f):
            if len(f) == n:
                return ("V", sym, ())
            return self.unflat(f[:-n] + [("splice", sym)])
        return new(a, fa), new(b, fb)

    @staticmethod
    def flat(v):
        return ([("splice", v[1])] if v[1] is not None else []) + list(v[2])

    @staticmethod
    def unflat(f):
        if f and type(f[0]) is tuple and f[0] and f[0][0] == "splice":
            return ("V", f[0][1], tuple(f[1:]))
        return ("V", None, tuple(f))

    def widen(self, ref):
        """one side is already finished: its partner's accumulated lists only matter through their length"""
        st = self.st
        m = {}

        def w(v):
            if type(v) is not tuple or not v:
                return v
            if v in m:
                return m[v]
            if v[0] == "V" and (len(v[2]) >= 2 or v[1] is not None and len(v[2]) >= 1):
                st.nid += 1
                sym = ("sym", st.nid)
                if not ref:
                    st.extra["widened"] = st.extra.get("widened", frozenset()) | {sym}
                self.vecfacts(v, sym)
                r = m[v] = ("V", sym, ())
                return r
            if v[0] == "A":
                return ("A", v[1], v[2], tuple(w(x) for x in v[3]))
            if v[0] == "T":
                return ("T", tuple(w(x) for x in v[1]))
            if v[0] == "V":
                return ("V", v[1], tuple(w(x) for x in v[2]))
            return v
        if ref:
            rf = st.extra["rf"] = [f.copy() for f in st.extra["rf"]]
            for f in rf:
                for k in list(f.env):
                    f.env[k] = w(f.env[k])
        else:
            for f in st.frames:
                if f.body is not None:
                    for k in list(f.loc):
                        f.loc[k] = w(f.loc[k])

    def collect(self, v, out, depth):
        if type(v) is not tuple or not v:
            return
        k = v[0]
        if k == "V":
            n = len(v[2])
            if n >= self.VMIN or (v[1] is not None and n >= 1 and v[1][0] in ("sym",)):
                out[v] = depth
            for x in v[2]:
                self.collect(x, out, depth + 1)
        elif k == "A":
            if depth >= self.DMIN and v[1].startswith(NODEAST) and size(v) > self.NMIN:
                out.setdefault(v, depth)
            elif depth < 6:
                for x in v[3]:
                    self.collect(x, out, depth + 1)
        elif k == "T":
            for x in v[1]:
                self.collect(x, out, depth)
        elif k == "C":
            for x in v[2]:
                self.collect(x, out, depth)

    def isnode(self, v):
        return True

    def norm(self, v):
        return v

    def match(self, a, b):
        if a[0] != b[0]:
            return False
        return self.p.differ(self.st, a, b, "x") is None

    def vecfacts(self, a, sym):
        st = self.st
        n = len(a[2]) + (0 if a[1] is None else 2)
        t = sym
        for _ in range(min(n, 2)):
            st.facts[("empty", t)] = ("in", frozenset((0,)))
            t = ("tail", t)

    def nodefacts(self, a, sym):
        st, p = self.st, self.p
        ad = p.P.adts[a[1]]
        if ad["enum"]:
            st.facts[("discr", sym, a[1])] = ("in", frozenset((p.P.discr[a[1]][a[2]],)))
        names = ad["v"][a[2]]["f"]
        for i, x in enumerate(a[3]):
            # (nothing ever depends on the operator of a finished expression)
            if type(x) is str and not (i < len(names) and names[i][0] == "operator"):
                st.facts[("strv", ("fld", sym, a[2], i))] = ("in", frozenset((x,)))

    def rep(self, v, m):
        if type(v) is not tuple or not v:
            return v
        if v in m:
            return m[v]
        k = v[0]
        if k == "A":
            return ("A", v[1], v[2], tuple(self.rep(x, m) for x in v[3]))
        if k == "T":
            return ("T", tuple(self.rep(x, m) for x in v[1]))
        if k == "V":
            return ("V", v[1], tuple(self.rep(x, m) for x in v[2]))
        if k == "C":
            return ("C", v[1], tuple(self.rep(x, m) for x in v[2]))
        if k == "R" and v[1][0] == "V":
            return ("R", ("V", self.rep(v[1][1], m)), v[2])
        return v


def size(v):
    if type(v) is tuple:
        return 1 + sum(size(x) for x in v)
    return 1
