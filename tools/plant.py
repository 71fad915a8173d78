#!/usr/bin/env python3
"""plant.py make DIR FILE... : makes and confirms planted bugs from definition files.
A definition is a python file with ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (main.rs).
plant.py check ID... : confirms existing ones again."""
import json, os, subprocess, sys
ROOT = "/verif/seeded"
W = "/tmp/vpplant"
BASE = "edb0dd5"
DEMO_SH = """#!/bin/bash
# Builds main.rs of this folder against the crate in the current directory and runs it.
. /opt/vp/env.sh
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d) || exit 3
trap 'find "$D" -delete' EXIT
mkdir "$D/src" "$D/run" && cp "$HERE/main.rs" "$D/src/main.rs" && cp "$REPO/Cargo.lock" "$D/" || exit 3
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
extended-collections = { path = "$REPO" }
serde = "1.0"
T
(cd "$D" && cargo build --offline -q >log 2>&1) || { tail -20 "$D/log"; exit 3; }
cd "$D/run" && exec_out=$(timeout 200 ../target/debug/demo 2>&1); rc=$?
echo "$exec_out" | tail -5
exit $rc
"""
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + "/repo"):
        sh(f"cp -a /repo {W}/repo")
    sh(f"git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", cwd=W + "/repo")
    t = open("/opt/vp/test.sh").read().replace("/repo", W + "/repo")
    open(W + "/test.sh", "w").write(t)
def check(pid, quiet=False):
    d = f"{ROOT}/{pid}"
    prep()
    r = W + "/repo"
    f = None
    for l in open(f"{d}/patch.diff"):  # only lines of the original repository may be removed
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(l.split("-")[1].split(" ")[0].split(",")[0])
        elif f and l.startswith("-"):
            if not sh(f"git -C /repo blame -s --abbrev=7 -L {n},{n} {f}").stdout.startswith("^" + BASE):
                return "touches a line of a later commit: " + l.strip()
            n += 1
        elif f and l.startswith(" "):
            n += 1
    a = sh(f"bash {d}/demo.sh", cwd=r)
    if a.returncode != 0:
        return f"demo fails on the unchanged tree ({a.returncode}): {a.stdout[-600:]}"
    p = sh(f"git apply {d}/patch.diff", cwd=r)
    if p.returncode: return "patch does not apply: " + p.stdout
    try:
        b = sh(f". /opt/vp/env.sh; cargo test --workspace --all-targets --no-run --offline", cwd=r)
        if b.returncode: return "does not build: " + b.stdout[-1500:]
        sh(f"bash {W}/test.sh {W}/out.json", cwd=r)
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        out = json.load(open(W + "/out.json"))
        miss = sorted(set(base) - set(out["passed"]))
        if miss: return f"{len(miss)} tests fail: {miss[:4]}"
        c = sh(f"bash {d}/demo.sh", cwd=r)
        if c.returncode in (0, 3): return f"demo exits {c.returncode} with the patch: {c.stdout[-500:]}"
        return "ok: " + c.stdout.strip().replace("\n", " | ")[-220:]
    finally:
        sh("git checkout -q -f . && git clean -fdq", cwd=r)
def make(f):
    g = {}
    exec(open(f).read(), g)
    pid = g["ID"]
    prep()
    r = W + "/repo"
    for fn, old, new in g["EDITS"]:
        s = open(f"{r}/src/{fn}").read()
        n = s.count(old)
        if n != 1 and not g.get("FIRST"):
            return pid, f"edit matches {n} times in {fn}: {old[:80]!r}"
        open(f"{r}/src/{fn}", "w").write(s.replace(old, new, 1))
    d = f"{ROOT}/{pid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
    open(d + "/demo.sh", "w").write(g.get("DEMO_SH", DEMO_SH))
    open(d + "/main.rs", "w").write(g["DEMO"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -f .", cwd=r)
    return pid, check(pid)
if __name__ == "__main__":
    for x in sys.argv[2:]:
        print(*(make(x) if sys.argv[1] == "make" else (x, check(x))), flush=True)
