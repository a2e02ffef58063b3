#!/usr/bin/env python3
"""Development aid: makes and confirms the planted bugs in seeded/ from the list in dev/bugs.py.
usage: mkseed.py [ID...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
graphrox = { path = "$R/graphrox-rs" }
[workspace]
EOF
%scd "$T" && timeout 280 cargo run --offline -q
'''
DEMO_PY = '''#!/bin/bash
# run with cwd = the repository, after its build
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/graphrox"
cp graphrox-py/graphrox/*.py "$T/graphrox/"
cp target/debug/libgraphrox.so "$T/graphrox/graphrox-$(uname -m)-unknown-linux-gnu.so"
cd "$T" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$T" timeout 280 python3 "$D/demo.py"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W):
    sh(f"cp -a /repo {W}")
only = sys.argv[1:]
for b in BUGS:
    if only and b["id"] not in only: continue
    sh(f"cd {W} && git checkout -q -- . && git fetch -q /repo && git reset -q --hard $(git -C /repo rev-parse HEAD)")
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        n = b.get("count", 1)
        if s.count(old) < 1: print(b["id"], "TEXT NOT FOUND", f, old[:50]); break
        i = b.get("nth", 0); pos = -1
        for _ in range(i + 1): pos = s.index(old, pos + 1)
        s = s[:pos] + new + s[pos + len(old):]
        open(p, "w").write(s)
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
    if b.get("py"):
        open(f"{d}/demo.sh", "w").write(DEMO_PY)
    else:
        open(f"{d}/demo.sh", "w").write(DEMO % ('ln -s "$R/graphrox-c/src/lib.rs" "$T/src/graphrox_c.rs"\n' if b.get("capi") else ""))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.{'py' if b.get('py') else 'rs'}", "w").write(b["demo"])
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    t = sh(f"cd {W} && cargo test --workspace --offline --no-fail-fast 2>&1 | grep -E '^test .*FAILED|^error|failed to' | head")
    if b.get("py"):
        t = sh(f"cd {W} && cargo build --workspace --offline -q 2>&1 | grep ^error; cp target/debug/libgraphrox.so graphrox-py/graphrox/graphrox-x86_64-unknown-linux-gnu.so; cd graphrox-py && PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 -u tests.py > /tmp/pyt.log 2>&1 || echo failed; grep -E '^FAIL|Error' /tmp/pyt.log; rm -f graphrox/*.so")
    good = sh(f"cd /repo && bash {d}/demo.sh")
    bad = sh(f"cd {W} && bash {d}/demo.sh")
    ok = not t.stdout.strip() and good.returncode == 0 and bad.returncode != 0
    print(b["id"], "OK" if ok else "PROBLEM", "" if ok else (t.stdout[-600:], good.returncode, good.stdout[-600:], bad.returncode, bad.stdout[-600:]), flush=True)
sh(f"cd {W} && git checkout -q -- .")
