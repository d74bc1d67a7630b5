"""Builds the MIR extractor and runs it over /repo's current working tree."""
import json, os, subprocess, sys, shutil, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GIRON_REPO", "/repo")
BUILD = os.environ.get("GIRON_VERIF_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(BUILD, "mirdump")
SRC = os.path.join(VERIF, "driver", "mirdump.rs")
OUT = os.path.join(BUILD, "out")
TARGET = os.path.join(BUILD, "target")


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=_env(), check=True,
                          capture_output=True, text=True).stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    stamp = DRIVER + ".src"
    src = open(SRC).read()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == src:
        return
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", SRC, "-o", DRIVER], env=_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError("building the MIR extractor failed:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(src)


def run():
    """Extract MIR from the current tree; returns {crate: dump}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        os.makedirs(OUT, exist_ok=True)
        for f in os.listdir(OUT):
            os.unlink(os.path.join(OUT, f))
        # cargo's freshness cache would skip the wrapper: drop the workspace members' fingerprints
        for root in (os.path.join(TARGET, "debug", ".fingerprint"), os.path.join(TARGET, "debug", "build"),
                     os.path.join(TARGET, "debug", "incremental")):
            if os.path.isdir(root):
                for d in os.listdir(root):
                    if d == "giron" or d == "giron-wasm" or d.startswith(("giron-", "giron_wasm")):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        e = _env()
        e.update(CARGO_NET_OFFLINE="true", MIRDUMP_OUT=OUT, RUSTC_WORKSPACE_WRAPPER=DRIVER, CARGO_TARGET_DIR=TARGET,
                 LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), CARGO_TERM_COLOR="never")
        r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--lib", "--offline"], cwd=REPO, env=e,
                           capture_output=True, text=True)
        res = {}
        for f in sorted(os.listdir(OUT)):
            if f.endswith(".json"):
                d = json.load(open(os.path.join(OUT, f)))
                res[d["crate"]] = d
        if "giron" not in res:
            raise ExtractError("no MIR for crate giron:\n" + r.stderr[-4000:])
        return res


if __name__ == "__main__":
    t = time.time()
    d = run()
    print({k: len(v["fns"]) for k, v in d.items()}, "%.1fs" % (time.time() - t))
