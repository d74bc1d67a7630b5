"""Effect analysis over the call graph: what code reachable from the entry points may read or change besides its arguments."""
import re
from .runner import Item

INPUT = [(r"^(std|core)::env::", "the environment"), (r"::(Instant|SystemTime)::(now|elapsed)$", "the clock"),
         (r"^std::time::.*::(now|elapsed)$", "the clock"), (r"^std::fs::|::File::|::OpenOptions::", "the file system"),
         (r"^std::net::", "the network"), (r"^std::process::", "the process"), (r"^std::os::", "the operating system"),
         (r"^std::io::(stdin|Stdin|Read|BufRead)", "standard input"), (r"^std::thread::(current|spawn|sleep|park|scope|Builder)", "threads"),
         (r"^(rand|getrandom|fastrand|js_sys|web_sys|chrono|libc)::", "the host")]
OUTPUT = [(r"^std::io::(_print|_eprint|stdout|stderr|Stdout|Stderr|Write)", "standard output")]
STATE = [(r"^std::thread::(local::)?LocalKey|^std::thread::local_impl|^std::sys::thread_local", "thread-local state")]
HASHTYPE = re.compile(r"\b(HashMap|HashSet|hash_map::\w+|hash_set::\w+)<")
HASHITER = re.compile(r"::Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|union|intersection|"
                      r"difference|symmetric_difference|extract_if)$")
ORDERFREE = {"any", "all", "count", "sum", "max", "min", "size_hint", "into_iter", "len", "product"}
INTERIOR = re.compile(r"\b(Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w*|OnceCell|ReentrantLock)\b")
ROOTS = re.compile(r"^(parse_script|parse_module)$|__wasm_bindgen_generated_")


class Effects:
    name = "effects"

    def __init__(self, dumps):
        self.dumps = dumps
        self.byname = {}
        self.fns = {}
        for c, d in dumps.items():
            for k, f in d["fns"].items():
                self.fns[(c, k)] = f
                self.byname.setdefault(k.split("::")[-1], []).append((c, k))

    def tasks(self, prop):
        return ["effects"]

    # ------------------------------------------------------------- one body
    @staticmethod
    def live_blocks(b):
        """blocks reached when switches on constants are resolved"""
        seen, todo = set(), [0]
        while todo:
            i = todo.pop()
            if i in seen or not isinstance(i, int) or i < 0 or i >= len(b["blocks"]):
                continue
            seen.add(i)
            bl = b["blocks"][i]
            known = {}

            def val(o):
                if o[0] == "k" and o[1].get("k") == "int":
                    return o[1]["v"]
                if o[0] in "cm" and len(o[1]) == 1:
                    return known.get(o[1][0])
                return None
            for s in bl["s"]:
                if s[0] == "=":
                    if len(s[1]) == 1:
                        r = s[2]
                        v = None
                        if r[0] == "use":
                            v = val(r[1])
                        elif r[0] == "un" and r[1] == "Not" and val(r[2]) in (0, 1):
                            v = 1 - val(r[2])
                        known[s[1][0]] = v
            t = bl["t"]
            if t and t[0] == "switch":
                v = val(t[1])
                arms, other = t[3], t[4]
                if v is not None:
                    todo.append(next((x[1] for x in arms if x[0] == v), other))
                    continue
            ints = []
            Effects._succ(t, ints)
            todo += ints
        return seen

    @staticmethod
    def _succ(t, out):
        k = t[0] if t else None
        if k == "switch":
            out += [x[1] for x in t[3]] + [t[4]]
            return
        i = {"goto": 1, "drop": 2, "call": 4, "assert": 5}.get(k)
        if i is not None:
            out.append(t[i])

    def scan(self, key):
        """(callees with location and destination, fn refs, statics, address casts, iterator uses) of the live part of a body"""
        c, k = key
        f = self.fns[key]
        calls, refs, statics, casts = [], [], [], []
        bodies = [f["body"]] + list(f.get("promoted") or [])
        for b in bodies:
            if not b:
                continue
            live = self.live_blocks(b)
            for i in live:
                bl = b["blocks"][i]
                if bl.get("cl"):
                    continue

                def walk(x, sp):
                    if isinstance(x, dict):
                        if x.get("k") == "static":
                            statics.append((x.get("p"), x.get("t"), sp))
                        if x.get("k") == "fn" and isinstance(x.get("f"), dict):
                            refs.append((x["f"], sp))
                        for v in x.values():
                            walk(v, sp)
                    elif isinstance(x, list):
                        if len(x) > 1 and x[0] == "closure" and isinstance(x[1], str):
                            refs.append(({"p": x[1], "r": x[1], "local": True, "name": x[1].split("::")[-1], "targs": []}, sp))
                        if len(x) > 2 and x[0] == "cast" and "PointerExpose" in str(x[1]):
                            casts.append(sp)
                        for v in x:
                            walk(v, sp)
                for s in bl["s"]:
                    walk(s, s[-1] if isinstance(s[-1], str) else bl["sp"])
                walk(bl["t"], bl["sp"])
                t = bl["t"]
                if t and t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1].get("f"), dict):
                    calls.append((t[1][1]["f"], t[3], b, live, bl["sp"]))
        return calls, refs, statics, casts

    def tystr(self, c, i):
        ts = self.dumps[c]["types"]
        return ts[i].get("s", "") if isinstance(i, int) and 0 <= i < len(ts) else ""

    @staticmethod
    def used(b, live, dest):
        """is the local read anywhere in the live part of the body?"""
        if not dest or len(dest) != 1:
            return True
        l = dest[0]
        hit = False

        def walk(x):
            nonlocal hit
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and x[1] and x[1][0] == l:
                    hit = True
                if len(x) > 1 and x[0] in ("ref", "discr", "rawptr") and isinstance(x[1], list) and x[1] and x[1][0] == l:
                    hit = True
                for v in x:
                    walk(v)
            elif isinstance(x, dict):
                for v in x.values():
                    walk(v)
        for i in live:
            for s in b["blocks"][i]["s"]:
                walk(s)
            walk(b["blocks"][i]["t"])
        return hit

    def run(self, task, maxtime):
        reached, todo, edges = set(), [], {}
        for key in self.fns:
            if ROOTS.search(key[1]):
                todo.append(key)
            elif key[0] == "giron" and key[1].endswith(("serde::Serialize>::serialize", "Drop>::drop")):
                todo.append(key)
        roots = list(todo)
        items, ncalls, nstat = {}, 0, 0

        def add(kind, text, sp, fn):
            k = "effects|%s|%s|%s" % (kind, fn, text)
            if k not in items:
                items[k] = Item(k, {"C28"}, "%s: %s" % (fn, text), sp, self.path(edges, key))
        while todo:
            key = todo.pop()
            if key in reached:
                continue
            reached.add(key)
            c, fn = key
            calls, refs, statics, casts = self.scan(key)
            ncalls += len(calls)
            atoms = [x for x in calls if re.search(r"::Atomic\w*(::<.*>)?::", x[0].get("r") or x[0]["p"])]
            for p, t, sp in statics:
                nstat += 1
                ty = self.tystr(c, t)
                if ty.startswith("*mut"):
                    add("state", "uses the mutable static %s" % p, sp, fn)
                elif INTERIOR.search(ty):
                    if re.search(r"\bAtomic\w*", ty) and atoms and all(
                            re.search(r"::store$", a[0]["p"]) or not self.used(a[2], a[3], a[1]) for a in atoms):
                        continue        # a counter nobody reads here
                    add("state", "uses the shared mutable state %s" % p, sp, fn)
            for sp in casts:
                add("address", "depends on the address of a value", sp, fn)
            for f, sp in refs:
                p = f.get("r") or f["p"]
                for lst, kind, verb in ((INPUT, "input", "reads"), (OUTPUT, "output", "writes to"), (STATE, "state", "uses")):
                    for r, w in lst:
                        if re.search(r, p) or re.search(r, f["p"]):
                            add(kind, "%s %s (%s)" % (verb, w, f["p"]), sp, fn)
                            break
                hashy = any(HASHTYPE.search(self.tystr(c, t)) for t in (f.get("targs") or [])[:1])
                if hashy and f["p"].startswith("std::iter::") and f.get("name") not in ORDERFREE:
                    add("order", "depends on the iteration order of a hash table (%s)" % f["name"], sp, fn)
                elif HASHITER.search(p) and p.endswith("::retain"):
                    add("order", "depends on the iteration order of a hash table (retain)", sp, fn)
                # callees of this workspace
                tg = []
                for cc in {c} | set(self.dumps):
                    for q in {f.get("r"), f["p"]}:
                        if q is None:
                            continue
                        if (cc, q) in self.fns and (cc == c) == bool(f.get("local", True)):
                            tg.append((cc, q))
                        if q.startswith(cc + "::") and (cc, q[len(cc) + 2:]) in self.fns:
                            tg.append((cc, q[len(cc) + 2:]))
                if not tg and f.get("trait") and not f.get("r"):
                    tg = [x for x in self.byname.get(f.get("name"), []) if " as " in x[1]]
                for x in tg:
                    if x not in reached:
                        edges.setdefault(x, key)
                        todo.append(x)
        return {"task": "effects", "items": list(items.values()), "undecided": [] if len(roots) > 2 else ["effects: no entry points"],
                "counts": {"entry_points": len(roots), "reachable": len(reached), "call_sites": ncalls, "static_uses": nstat},
                "functions": sorted("%s::%s" % k for k in reached)}

    @staticmethod
    def path(edges, key):
        out = [key[1]]
        while key in edges and len(out) < 12:
            key = edges[key]
            out.append(key[1])
        return " <- ".join(out)
