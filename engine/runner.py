"""Runs the analyses a property needs over /repo's current tree and turns their findings into a verdict."""
import fcntl, hashlib, json, multiprocessing, os, sys, time, traceback
from . import extract

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Item:
    """one finding of one analysis; key has no line numbers"""
    __slots__ = ("key", "props", "text", "where", "trace")

    def __init__(self, key, props, text, where="", trace=""):
        self.key, self.props, self.text, self.where, self.trace = key, sorted(props), text, where, trace


# -------------------------------------------------------------------- parser product tasks
FAMILY = {
    "C10": """parse_statement_list parse_stmt_list_item parse_statement parse_expression_or_labelled_stmt parse_block_stmt
        parse_empty_stmt parse_variable_stmt parse_lexical_dclr parse_if_stmt parse_iteration_stmt parse_for_stmt parse_while_stmt
        parse_do_while_stmt parse_switch_stmt parse_continue_stmt parse_break_stmt parse_return_stmt parse_with_stmt parse_throw_stmt
        parse_try_stmt parse_debugger_stmt parse_variable_dclr parse_directive_prologues""",
    "C11": """parse_expression parse_assignment_expr parse_yield_expr parse_arrow_body parse_conditional_expr parse_binary_expr
        precedence_climbing parse_exponentiation_expr parse_unary_expr parse_update_expr parse_left_hand_side_expr parse_call_expr
        parse_member_expr parse_new_expr parse_super parse_primary_expr parse_arguments parse_seq_or_arrow parse_async_primary_expr
        parse_id_reference""",
    "C12": "precedence_climbing parse_binary_expr parse_exponentiation_expr parse_assignment_expr parse_conditional_expr parse_unary_expr",
    "C13": """parse_hoistable_dclr parse_function_body parse_function_expr_body parse_class_dclr parse_class_expr parse_class_body
        parse_arrow_body parse_seq_or_arrow parse_async_primary_expr parse_object_lit_expr parse_formal_params""",
    "C14": "parse_array_lit_expr parse_object_lit_expr parse_template_literal parse_property_name parse_arguments",
    "C15": """parse_binding_id_or_pat parse_binding_id parse_arr_binding_pat parse_obj_binding_pat parse_formal_params
        parse_variable_dclr parse_try_stmt parse_lexical_dclr parse_variable_stmt""",
    "C16": "parse_module_item parse_import_dclr parse_export_dclr",
    "C18": "assign_target_type to_assignment_pattern array_to_assign_pattern as_assignment_element object_to_assign_pattern",
    "C21": """to_assignment_pattern array_to_assign_pattern as_assignment_element object_to_assign_pattern to_binding_pattern
        to_strict_binding array_to_pattern array_pattern_to_binding to_array_pattern_element object_to_pattern
        object_pattern_to_binding seq_to_arrow_params arguments_to_params""",
    "C23": "parse_script parse_module parse_directive_prologues",
}
FAMILY = {k: v.split() for k, v in FAMILY.items()}
TARGETS = {"parse_assignment_expr", "parse_unary_expr", "parse_update_expr", "parse_for_stmt", "parse_yield_expr",
           "parse_arrow_body"}
ALLNT = {"C01", "C02", "C05", "C09", "C17", "C19", "C20", "C24", "C25", "C29"}
ORDER = ["precedence_climbing", "parse_class_body", "parse_for_stmt", "parse_object_lit_expr", "parse_async_primary_expr"]


def product_props(f, tree):
    """properties a finding of the parser product speaks about"""
    nt, kind, d, x = f.nt, f.kind, f.detail, f.extra or {}
    fam = {p for p, l in FAMILY.items() if nt in l}
    if kind in ("hang", "no-progress"):
        return {"C02"} | (fam if kind == "no-progress" else set())
    if kind == "error":
        return {"C24"}
    if kind == "goal":
        return {"C09"} | ({"C14"} if nt == "parse_template_literal" else set())
    if kind == "span":
        return {"C20"}
    if kind == "spanend":
        return {"C29"}
    if kind == "nl":
        return {"C19", "C25"}
    out = set(fam)
    if kind == "flags":
        out.add("C17")
    if x.get("flags"):
        out.add("C17")
        if "has_in" in x["flags"]:
            out.add("C12")
    if x.get("nl") or x.get("fns", set()) & {"consume_semicolon"} or x.get("rfs", set()) & {"semicolon"}:
        out.add("C19")
    if kind == "target" or "assign_target_type" in d:
        out.add("C18")
    if nt in TARGETS and ("InvalidLhs" in d or "to_assignment_pattern" in d or "assign_target_type" in f.trace):
        out.add("C18")
    if "to_binding" in d or "to_arrow" in d:
        out.add("C21")
    if kind == "position" or "peek" in d:
        out.add("C25")
    if x.get("word"):
        out.add("C05")
    if "." in d and "generator" in d:
        out.add("C13")
    return out


def deviations(notes):
    """recorded defects: the place of the reference grammar where it follows the code was reached"""
    return [Item("deviation|" + n, {n[:3]}, "deviation from the standard: " + n[4:], "reference grammar", "") for n in sorted(notes)]


class Product:
    """the lock-step parser analysis, one task per nonterminal (and per value of an enumerated argument)"""
    name = "product"

    def __init__(self, dumps):
        from .grammar import Grammar
        self.g = Grammar(dumps["giron"])
        self.p = self.g.product()

    def tasks(self, prop):
        if prop in ALLNT or prop is None:
            nts = list(self.g.keyof)
        else:
            nts = [n for n in self.g.keyof if n in FAMILY.get(prop, ()) or prop == "C18" and n in TARGETS]
        out = []
        for n in nts:
            vals = self.g.ref[n].opts.get("values")
            if vals:
                (a, vs), = vals.items()
                out += [(n, a, v) for v in vs]
            else:
                out.append((n, None, None))
        out.sort(key=lambda t: ORDER.index(t[0]) if t[0] in ORDER else 99)
        return out

    def run(self, task, maxtime):
        n, a, v = task
        p = self.p
        p.I.seen.clear()
        p.findings, p.panics, p.undec, p.stats, p.nerr, p.maxstates_hit = {}, {}, [], {}, 0, []
        p.notes = set()
        p.MAXTIME = maxtime
        p.MAXSTATES = 2000000
        e = {"args": {a: (v,)}} if a else {}
        p.explore1(n, self.g.keyof[n], e)
        items = []
        for f in p.findings.values():
            if f.kind in ("precondition", "argument") and False:
                continue
            items.append(Item(f.key(), product_props(f, None), "%s: %s: %s" % (f.nt, f.kind, f.detail), f.where, f.trace))
        for f in p.panics.values():
            items.append(Item(f.key(), {"C01"}, "%s: panic: %s" % (f.nt, f.detail), f.where, f.trace))
        items += deviations(p.notes)
        st = p.stats.get(n, {})
        return {"task": "%s%s" % (n, "(%s=%s)" % (a, v) if a else ""), "items": items,
                "undecided": sorted(set("%s: %s" % (x[0], x[1]) for x in p.undec)),
                "counts": {"states": st.get("states", 0), "joint_states": st.get("joint", 0), "error_values": p.nerr},
                "functions": sorted(map(str, p.I.seen))}


# -------------------------------------------------------------------- the driver
ANALYSES = {}


def load_analyses():
    from . import rules
    from . import lexrun
    ANALYSES["scanner"] = (lexrun.Lex, lexrun.PROPS)
    ANALYSES["product"] = (Product, ALLNT | set(FAMILY))
    ANALYSES.update(rules.ANALYSES)


_inst = {}
_maxt = 150


def _work(t):
    an, task = t
    t0 = time.time()
    try:
        r = _inst[an].run(task, _maxt)
    except Exception:
        r = {"task": str(task), "items": [], "undecided": ["internal: " + traceback.format_exc()[-1500:]], "counts": {},
             "functions": []}
    r["analysis"] = an
    r["time"] = round(time.time() - t0, 2)
    return r


def analyse(prop, thorough=False, deadline=640, dumps=None):
    global _maxt
    t0 = time.time()
    load_analyses()
    if dumps is None:
        dumps = extract.run()
    todo, results = [], []
    for an, (cls, props) in ANALYSES.items():
        if prop is not None and prop not in props:
            continue
        try:
            _inst[an] = cls(dumps)
            todo += [(an, t) for t in _inst[an].tasks(prop)]
        except Exception:
            results.append({"task": an, "analysis": an, "items": [], "undecided": ["internal: " + traceback.format_exc()[-1500:]],
                            "counts": {}, "functions": [], "time": 0})
    _maxt = (600 if thorough else 200) * float(os.environ.get("GIRON_TIMESCALE", "1"))
    if todo:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(min(8, len(todo), os.cpu_count() or 1), maxtasksperchild=None)
        try:
            rs = [pool.apply_async(_work, (t,)) for t in todo]
            for t, r in zip(todo, rs):
                left = deadline - (time.time() - t0)
                try:
                    results.append(r.get(max(left, 0.1)))
                except multiprocessing.TimeoutError:
                    results.append({"task": str(t[1]), "analysis": t[0], "items": [], "undecided": ["%s: time limit" % (t[1],)],
                                    "counts": {}, "functions": [], "time": 0})
        finally:
            pool.terminate()
            pool.join()
    return results, dumps


def known():
    """key -> (property, text) of recorded, unrepaired findings"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                head, _, key = l[7:].partition(" key=")
                prop = head.split()[0].split("=")[1]
                out.setdefault((prop, key.strip()), head.partition(" ")[2])
    return out


def check(prop, thorough=False):
    t0 = time.time()
    tier = "thorough" if thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    results, dumps = analyse(prop, tier == "thorough")
    kn = known()
    viol, kf, seen = [], [], set()
    for r in results:
        for it in r["items"]:
            if prop not in it.props or it.key in seen:
                continue
            seen.add(it.key)
            if (prop, it.key) in kn:
                kf.append((it, kn[(prop, it.key)]))
            else:
                viol.append(it)
    for it, t in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, t or it.text))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join("evidence", "%s.replay.txt" % prop)
    full = os.path.join(HERE, path)
    if viol:
        with open(full, "w") as f:
            for it in viol:
                f.write("%s\n    at    %s\n    path  %s\n    key   %s\n" % (it.text, it.where, it.trace, it.key))
        for it in viol[:20]:
            print("  %s\n      at %s\n      path %s" % (it.text[:600], it.where, it.trace[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif os.path.exists(full):
        os.unlink(full)
    write_evidence(prop, tier, results, dumps, viol, kf, time.time() - t0)
    und = sum(len(r["undecided"]) for r in results)
    print("%s: %d tasks, %d violation(s), %d known, %d undecided, %.1fs" % (prop, len(results), len(viol), len(kf), und, time.time() - t0))
    return 1 if viol else 0


def write_evidence(prop, tier, results, dumps, viol, kf, wall):
    from . import props
    tot = {}
    for r in results:
        for k, v in r["counts"].items():
            tot[k] = tot.get(k, 0) + v
    fns = sorted({f for r in results for f in r["functions"]})
    cov = {"explanation": props.EXPLAIN.get(prop, "static analysis of the compiler's MIR"),
           "rule": props.RULE.get(prop, ""),
           "tasks": [{"analysis": r["analysis"], "task": r["task"], "time_s": r["time"], **r["counts"]} for r in results],
           "functions_analysed": fns, "functions_in_dump": sum(len(d["fns"]) for d in dumps.values()),
           "undecided": [u[:400] for r in results for u in r["undecided"]][:200],
           "known_findings": [it.key for it, _ in kf]}
    cov.update(tot)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": props.ASSUME, "wall_s": round(wall, 2), "violations": len(viol)}
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", "%s.json" % prop))
