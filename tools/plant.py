#!/usr/bin/env python3
"""Plant the bugs of bugs.py: make patches and demos, confirm them in a scratch
copy, and run the checks against them.

  plant.py make ID...|all     confirm in a scratch copy, write seeded/<id>/
  plant.py run ID...|all      apply to /repo, run the property's check, undo
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
SCRATCH = "/tmp/plant_scratch"
RESULTS = os.path.join(HERE, "results.json")

DEMO = r'''#!/bin/bash
# exit 0 when the property holds for this input, nonzero otherwise
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
colorspace = { path = "$repo" }
simdeez = "1.0.7"
libc = "0.2"
num-traits = "0.2.8"
[workspace]
TOML
cd "$dir"
export CARGO_TARGET_DIR="$dir/target"
%s
'''

def sh(cmd, cwd=None, env=None, timeout=900, quiet=True):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def fresh():
    if not os.path.isdir(SCRATCH):
        sh(f"cp -a /repo {SCRATCH}")
    sh(f"git -C {SCRATCH} fetch -q /repo && git -C {SCRATCH} checkout -q -f FETCH_HEAD && git -C {SCRATCH} clean -fdq")
    head = sh("git -C /repo rev-parse HEAD")[1]
    assert head == sh(f"git -C {SCRATCH} rev-parse HEAD")[1], "scratch not at HEAD"

def edit(root, bug):
    for f, old, new in bug["edits"]:
        p = os.path.join(root, f)
        s = open(p).read()
        n = bug.get("count", {}).get(old, 1)
        if s.count(old) != n and not (isinstance(n, str)):
            raise SystemExit(f"{bug['id']}: {s.count(old)} matches of {old!r} in {f}")
        open(p, "w").write(s.replace(old, new))

def blame(root, bug):
    rc, o = sh("git diff -U0", cwd=root)
    import re
    base = {f: set(sh(f"git -C {root} show 6f4dcd9:{f}")[1].splitlines()) for f in {e[0] for e in bug["edits"]}}
    rem = [l[1:] for l in o.splitlines() if l.startswith("-") and not l.startswith("---")]
    allb = set().union(*base.values())
    bad = [l for l in rem if l not in allb]
    if bad or not rem:
        print(bug["id"], "note: lines removed that are not original:", bad, "removed", len(rem))

def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    # the two test configurations, run in the scratch copy
    ok = True
    out = ""
    for flags, extra in (("", ""), ("-C target-feature=+avx", "--lib")):
        env = dict(os.environ, RUSTFLAGS=flags) if flags else dict(os.environ)
        env["CARGO_TARGET_DIR"] = SCRATCH + "/target" + ("/avx" if flags else "")
        rc, o = sh(f"cargo test --offline {extra}", cwd=SCRATCH, env=env)
        ok &= rc == 0
        out += o
    return ok, out

def demo(folder):
    env = {k: v for k, v in os.environ.items() if k != "VERIF_SEED"}
    rc, out = sh(f"bash {folder}/demo.sh", cwd=SCRATCH, env=env, timeout=300)
    return rc, out

def make(bug):
    t = time.time()
    fresh()
    d = os.path.join(VERIF, "seeded", bug["id"])
    os.makedirs(d, exist_ok=True)
    run = {"": "cargo run -q --offline", "release": "cargo run -q --release --offline",
           "avx": 'RUSTFLAGS="-C target-feature=+avx" cargo run -q --offline',
           "avx-release": 'RUSTFLAGS="-C target-feature=+avx" cargo run -q --release --offline'}[bug.get("mode", "")]
    if bug.get("both"):
        run = "cargo run -q --offline\n" + 'RUSTFLAGS="-C target-feature=+avx" cargo run -q --offline'
    open(d + "/demo.sh", "w").write(DEMO % run)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(bug["demo"].strip() + "\n")
    shutil.copy(os.path.join(HERE, "demo.lock"), d + "/Cargo.lock")
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, out = demo(d)
    if rc != 0:
        print(bug["id"], "DEMO FAILS ON CLEAN TREE", rc, out[-1500:]); return False
    edit(SCRATCH, bug)
    rc, patch = sh("git diff", cwd=SCRATCH)
    open(d + "/patch.diff", "w").write(patch)
    blame(SCRATCH, bug)
    ok, out = tests()
    if not ok:
        print(bug["id"], "TESTS FAIL", "\n".join(l for l in out.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500]); return False
    rc, out = demo(d)
    if rc == 0:
        print(bug["id"], "DEMO PASSES WITH THE BUG"); return False
    print(f"{bug['id']}: confirmed ({time.time()-t:.0f}s) demo rc={rc}: {[l for l in out.splitlines() if "panicked" in l or "SIG" in l][:1]}", flush=True)
    return True

def run(bug):
    d = os.path.join(VERIF, "seeded", bug["id"])
    assert sh("git -C /repo status --porcelain")[1] == ""
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    try:
        rc, o = sh(f"git -C /repo apply {d}/patch.diff")
        assert rc == 0, o
        t = time.time()
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        rc, o = sh(f"python3 {VERIF}/check.py {bug['property']}", cwd=VERIF, env=env)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        caught = rc == 1 and any(f"property={bug['property']}" in l for l in v)
        print(f"{bug['id']}: {'CAUGHT' if caught else 'MISSED'} rc={rc} {time.time()-t:.0f}s {v[:1]}", flush=True)
        if not caught:
            print(o[-1200:])
        res[bug["id"]] = {"property": bug["property"], "caught": caught, "rc": rc}
    finally:
        sh("git -C /repo checkout -- .")
    json.dump(res, open(RESULTS, "w"), indent=1, sort_keys=True)

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    todo = [b for b in BUGS if ids == ["all"] or b["id"] in ids]
    for b in todo:
        if cmd in ("make", "both"):
            if not make(b):
                continue
        if cmd in ("run", "both"):
            run(b)
