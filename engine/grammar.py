"""Drives the product construction over every nonterminal of the reference grammar."""
import os, re, time, sys
from . import refc
from .interp import Interp
from .models import Models
from .mir import Program
from .tokens import TokenDomain
from .product import Product, FLAGS
from spec import tokens as T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = [os.path.join(HERE, "spec", f) for f in ("grammar_stmt.py", "grammar_expr.py", "grammar_func.py", "grammar_module.py",
                                                 "grammar_cover.py")]
WORDS = ("async of let static get set as from use strict eval arguments constructor prototype target meta __proto__ new "
         "implements interface package private protected public").split() + ["use strict"]


class Grammar:
    def __init__(self, dump, specs=None):
        self.P = Program(dump)
        words = set(w for w in WORDS if w != "use")
        for fn, c in self.P.consts(lambda n: "parser::" in n or "estree" in n):
            if hasattr(c, "d") and c.d["k"] == "str" and re.fullmatch(r"[a-z]{2,12}", c.d["v"]):
                words.add(c.d["v"])
        words -= {"simple", "invalid", "strict", "init", "module", "script"}
        self.dom = TokenDomain(self.P, words)
        self.ref = refc.load([s for s in (specs or SPECS) if os.path.exists(s)], {"Div": "Div", "RegExp": "RegExp", "Any": "Any"})
        self.ntkeys = {}
        self.keyof = {}
        missing = []
        for n, f in self.ref.items():
            if not f.is_nt:
                continue
            k = self.find(n, f)
            if k is None:
                missing.append(n)
            else:
                self.ntkeys[k] = n
                self.keyof[n] = k
        self.missing = missing

    def find(self, n, f):
        c = []
        want = f.opts.get("fn", n)
        for k in self.P.bodies:
            if isinstance(k, str) and k.split("::")[-1] == want and "closure" not in k:
                if "parser::parser" in k or "estree" in k:
                    c.append(k)
        return c[0] if len(c) == 1 else None

    # ---------------------------------------------------------------- facts derived from the reference program
    def relevance(self):
        """context flags a nonterminal's behaviour depends on"""
        direct = {}
        for n, f in self.ref.items():
            d = set()
            for i in f.code:
                if i[0] == "prim" and i[2] == "flag" and i[3][0][0] == "c":
                    d.add(i[3][0][1])
            direct[n] = d
        rel = {n: set(d) for n, d in direct.items()}
        ch = True
        while ch:
            ch = False
            for n, f in self.ref.items():
                for i in f.code:
                    if i[0] in ("nt", "call"):
                        new = rel[i[2]] - set(i[4])
                        # an override computed from a flag makes that flag relevant through the `flag` primitive
                        if not new <= rel[n]:
                            rel[n] |= new
                            ch = True
        return {n: tuple(x for x in FLAGS if x in r) for n, r in rel.items()}

    def product(self):
        I = Interp(self.P, self.dom, Models(), set(self.ntkeys))
        p = Product(self.P, I, self.dom, self.ref, self.ntkeys, self.relevance())
        p.install()
        p.keyof = self.keyof
        p.first_sets()
        p.node_kinds()
        I.iter_events = True
        return p


def main():
    from . import extract
    import json
    if os.environ.get("CACHED"):
        d = json.load(open(os.path.join(extract.OUT, "giron.json")))
    else:
        d = extract.run()["giron"]
    g = Grammar(d)
    if g.missing:
        print("missing in implementation:", g.missing)
    p = g.product()
    names = sys.argv[1:] or [n for n in g.keyof]
    t = time.time()
    for n in names:
        nf, npn, nu = len(p.findings), len(p.panics), len(p.undec)
        p.explore(n, g.keyof[n], {})
        print("==", n, p.stats.get(n), g.relevance().get(n))
        for k, f in list(p.findings.items())[nf:]:
            print("   F", k, "\n      path", f.trace, "\n      at", f.where)
        for k, f in list(p.panics.items())[npn:]:
            print("   PANIC", k, "\n      path", f.trace, "\n      at", f.where)
        for u in sorted(set(map(str, p.undec[nu:])))[:12]:
            print("   U", u[:400])
    print("%.1fs" % (time.time() - t), "atoms", len(g.dom.atoms))


if __name__ == "__main__":
    main()
