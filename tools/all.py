#!/usr/bin/env python3
"""all findings of every analysis over the current tree (development aid)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import runner
rs, d = runner.analyse(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] != "-" else None)
kn = runner.known()
for r in rs:
    for it in r["items"]:
        k = [p for p in it.props if (p, it.key) in kn]
        print("%s %s\n    at %s\n    path %s" % (it.props, it.text[:500], it.where, it.trace[:500]), "KNOWN" if k else "")
    for u in r["undecided"]:
        print("  U", r["task"], u[:300])
print(sum(r["time"] for r in rs), "cpu s")
