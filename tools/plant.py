"""Plant a bug: builds /verif/seeded/<id>/ from an edit of /repo's sources and a demonstration, and confirms it.
usage: plant.py SPEC.py ; SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], CASES=[(goal, source, python expression over n)]
The scratch copy lives in /tmp/plant and is removed by `plant.py --clean`."""
import sys, os, subprocess, json, runpy, shutil
SC = "/tmp/plant/repo"
PROG = r'''fn main(){ let a:Vec<String>=std::env::args().collect();
 let t=std::fs::read_to_string(&a[2]).unwrap();
 // several sources, parsed one after the other, the last one reported: "m:SOURCE\u{1}s:SOURCE"
 let mut h:Vec<(bool,String)>=if a[1]=="mix" {t.split('\u{1}').map(|x|(x.starts_with("m:"),x[2..].to_string())).collect()} else {vec![(a[1].starts_with("m"),t)]};
 let (m,s)=h.pop().unwrap();
 for (m,x) in h { let _ = if m {giron::parse_module(x)} else {giron::parse_script(x)}; }
 let r = if m {giron::parse_module(s)} else {giron::parse_script(s)};
 match r { Ok(n)=>if a[1].ends_with("d") {println!("{:?}",n)} else {println!("{}",serde_json::to_string(&n).unwrap())}, Err(e)=>println!("ERR {:?}",e) } }
'''
DEMO_SH = '''#!/bin/bash
# Builds a small program against the giron crate of the current directory and runs the cases of demo.py with it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/p/src"
cp "$here/prog.rs" "$work/p/src/main.rs"
cat > "$work/p/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
giron = { path = "$repo/giron" }
serde_json = "1.0"
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/p/Cargo.lock"
cargo build --offline --quiet --manifest-path "$work/p/Cargo.toml" --target-dir "$work/t" || exit 2
python3 "$here/demo.py" "$work/t/debug/demo" "$work"
'''
DEMO_PY = '''import json, subprocess, sys, os
CASES = %s


def run(goal, src):
    p = os.path.join(sys.argv[2], "in.js")
    open(p, "w", encoding="utf-8", newline="").write(src)
    r = subprocess.run([sys.argv[1], goal, p], capture_output=True, text=True, timeout=60)
    if r.returncode != 0:
        return ("PANIC", r.stderr)
    if r.stdout.startswith("ERR"):
        return ("ERR", r.stdout.strip())
    return ("OK", r.stdout if goal.endswith("d") else json.loads(r.stdout))


bad = 0
for goal, src, want in CASES:
    try:
        k, n = run(goal, src)
    except subprocess.TimeoutExpired:
        k, n = "HANG", None
    b = n["body"] if k == "OK" and isinstance(n, dict) else []
    try:
        ok = bool(eval(want, {"k": k, "n": n, "b": b}))
    except Exception as e:
        ok = False
    if not ok:
        bad += 1
        print("FAILED", goal, repr(src), "expected", want, "got", k, str(n)[:400])
sys.exit(1 if bad else 0)
'''


def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def passed(o):
    for k in ('passed', 'stable', 'pass', 'stable_pass'):
        if k in o: return set(map(str, o[k]))


def main():
    if sys.argv[1] == "--clean":
        shutil.rmtree("/tmp/plant", ignore_errors=True); return
    S = runpy.run_path(sys.argv[1])
    d = "/verif/seeded/" + S["ID"]
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(SC):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh("cp -a /repo " + SC)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SC)
    open(d + "/prog.rs", "w").write(PROG)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.py", "w").write(DEMO_PY % ("[\n" + "".join("    %r,\n" % (c,) for c in S["CASES"]) + "]"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(d + "/demo.sh", SC)
    if r.returncode: print("DEMO FAILS ON CLEAN", r.stdout[-1500:], r.stderr[-800:]); return
    for f, old, new in S["EDITS"]:
        p = SC + "/" + f
        t = open(p).read()
        if t.count(old) != 1: print("EDIT matches", t.count(old), repr(old)); return
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", SC).stdout)
    # changed lines must be the original repository's
    base = "585382a"
    for f in {e[0] for e in S["EDITS"]}:
        bl = sh("git blame -s HEAD -- " + f, SC).stdout.split("\n")
        for h in open(d + "/patch.diff").read().split("\n@@ ")[1:]:
            a = int(h.split("-")[1].split(",")[0].split(" ")[0]); ln = a
            for x in h.split("\n")[1:]:
                if x.startswith("-"):
                    if ln <= len(bl) and not bl[ln - 1].startswith("^"):
                        print("note: line %d not original? %s" % (ln, bl[ln - 1][:110]))
                if not x.startswith("+"): ln += 1
    sh("sed 's#/repo#%s#' /opt/vp/build.sh > /tmp/plant/build.sh; sed 's#cd /repo#cd %s#' /opt/vp/test.sh > /tmp/plant/test.sh" % (SC, SC))
    r = sh("bash /tmp/plant/build.sh", SC)
    if r.returncode: print("BUILD FAILS", r.stderr[-2500:]); return
    r = sh("bash /tmp/plant/test.sh /tmp/plant/out.json", SC)
    o = json.load(open("/tmp/plant/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    if not passed(b) <= passed(o): print("TESTS CATCH IT", passed(b) - passed(o)); return
    r = sh(d + "/demo.sh", SC)
    print(S["ID"], "OK: demo rc", r.returncode, r.stdout[:600], r.stderr[-500:] if r.returncode != 1 else "")


main()
