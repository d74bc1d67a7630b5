"""Tasks of the scanner analysis."""
import os
from . import refc
from .interp import Interp
from .models import Models
from .mir import Program
from .chars import LexDomain
from .lexprod import LexProduct, SCANNER
from .runner import Item
from spec import tokens as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec", "lexical.py")
PUNCTS = tuple(sorted(set(T.PUNCT.values())))


class Lex:
    name = "scanner"
    TEXTS = ("'", '"', "`", "}", "slash")
    # by the first character of the token; what comes before it is explored in each task
    GROUPS = {"name": ("#idstart", "\\"), "number": ("#dec", "."), "'": ("'",), '"': ('"',), "`": ("`",), "}": ("}",),
              "slash": ("/", "#eof")}

    def __init__(self, dumps):
        self.P = P = Program(dumps["giron"])
        words = set(T.KEYWORDS) | set(T.LITERAL_WORDS)
        for fn, c in P.consts(lambda n: "scanner" in n):
            if hasattr(c, "d") and c.d["k"] == "str" and c.d["v"].isidentifier():
                words.add(c.d["v"])
        self.dom = LexDomain(P, words)
        ref = refc.load([SPEC], {"KEYWORDS": tuple(T.KEYWORDS), "BOOLS": ("true", "false"), "PUNCTS": PUNCTS})
        ks = [k for k in P.bodies if isinstance(k, str) and k.startswith(SCANNER) and k.endswith("::next")]
        I = Interp(P, self.dom, Models(), set())
        self.p = LexProduct(P, I, self.dom, ref, ks[0] if len(ks) == 1 else None)

    def mask(self, g):
        d = self.dom
        if g == "rest":
            m = d.ALL
            for x in self.GROUPS.values():
                m &= ~self.p.lexmask(x)
            return m
        return self.p.lexmask(self.GROUPS[g])

    def tasks(self, prop):
        out = []
        both = ("Div", "RegExp")
        for g in ("`", "}", "'", '"'):
            for aspect in ("raw", "cooked", "pos") if g in "`}" else ("text", "pos"):
                out.append((both, g, aspect))
        out += [(("RegExp",), "slash", "text"), (("RegExp",), "slash", "pos"), (("Div",), "slash", None)]
        out += [(both, g, None) for g in ("number", "name", "rest")]
        if prop in NEEDS:
            out = [t for t in out if t[1] in NEEDS[prop]]
        if ASPECTS.get(prop):
            out = [t for t in out if t[2] in ASPECTS[prop]]
        return out

    def run(self, task, maxtime):
        goal, g, aspect = task
        p = self.p
        p.aspect = aspect
        p.I.seen.clear()
        p.findings, p.panics, p.undec, p.stats, p.nerr, p.ntok, p.maxstates_hit = {}, {}, [], {}, 0, 0, []
        p.notes = set()
        p.MAXTIME = maxtime
        name = "next"
        p.explore_lex(name, goal, self.mask(g))
        items = [Item("scanner|%s|%s|%s" % (g, f.kind, f.detail), lex_props(f, g, "RegExp" in goal), "scanner: %s: %s" % (f.kind, f.detail), f.where, f.trace)
                 for f in p.findings.values()]
        for f in p.panics.values():
            items.append(Item("scanner|%s|panic|%s" % (g, f.detail), {"C01"}, "scanner: panic: %s" % f.detail, f.where, f.trace))
        from .runner import deviations
        items += deviations(p.notes)
        st = p.stats.get(name, {})
        return {"task": "scanner %s %s%s" % ("/".join(goal), g, " " + aspect if aspect else ""), "items": items,
                "undecided": sorted(set("%s: %s" % (x[0], x[1]) for x in p.undec)),
                "counts": {"states": st.get("states", 0), "joint_states": st.get("joint", 0), "tokens_compared": p.ntok,
                           "rejections_compared": p.nerr},
                "functions": sorted(map(str, p.I.seen))}


PROPS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C14", "C19", "C20", "C24", "C25", "C29"}
# the task groups a property needs; all of them where it is not listed
NEEDS = {"C03": ("name", "rest", "number"), "C04": ("rest", "slash", "}", "number"), "C05": ("name",),
         "C06": ("'", '"', "`", "}", "slash", "number", "rest"), "C07": ("'", '"', "`", "}", "name"), "C08": ("number",),
         "C09": ("`", "}", "slash", "rest"), "C14": ("`", "}", "rest"), "C19": ("rest", "name", "}")}
ASPECTS = {"C06": None, "C07": ("text", "raw", "cooked", None), "C14": None, "C19": ("pos", None), "C20": ("pos", None), "C29": ("pos", None),
           "C24": ("pos", None), "C25": ("pos", None), "C02": None, "C01": None}
ESCAPES = {"unicode_escape", "hex_digits", "string_escape", "template_escape", "simple_escape", "line_terminator_sequence"}


def lex_props(f, g, regexp):
    ps = lex_props1(f, g, regexp)
    if (f.extra or {}).get("line"):
        ps = ps | {"C19", "C03"}
    return ps


def lex_props1(f, g, regexp):
    """properties a finding of the scanner product speaks about"""
    k, d, x = f.kind, f.detail, f.extra or {}
    rfs = x.get("rfs", set())
    if k == "hang" or k == "no-progress":
        return {"C02"}
    if k in ("position", "counter"):
        return {"C19", "C25"} if "flag" in d else {"C20", "C24", "C29"}
    if k == "braces":
        return {"C09", "C14", "C25"}
    if k == "residue":
        return {"C25"} | ({"C14"} if g in "`}" else set())
    if "skip_trivia" in rfs:
        return {"C03", "C06"} if "multi_line_comment" in rfs else {"C03"}
    esc = "\\" in f.trace or bool(rfs & ESCAPES)
    out = set()
    if g == "name":
        out.add("C05")
        out.add("C07" if esc else "C03")
    elif g == "number":
        out.add("C08")
        if k != "value":
            out.add("C06")
        if "numeric" not in "".join(map(str, rfs)) and "Punct" in d:
            out.add("C04")
    elif g in ("'", '"'):
        out |= {"C07"} if esc else set()
        if k != "value" or not esc:
            out.add("C06")
    elif g in "`}":
        out.add("C14")
        out |= {"C07"} if esc else set()
        if k != "value":
            out.add("C06")
        if k == "type" or g == "}" and not esc:
            out.add("C09")
        if g == "}":
            out.add("C04")
    elif g == "slash":
        out |= {"C06", "C09"} if regexp else {"C04", "C09"}
    else:
        out |= {"C04", "C03"}
        if k in ("type",):
            out.add("C09")
    return out
