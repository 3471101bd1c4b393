#!/usr/bin/env python3
"""mkbug.py SPEC.py [NAME...]: plant each bug of SPEC in a scratch copy, confirm build, tests and demo, keep it in /verif/seeded.
SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=rust source, needs, breaks)]"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# Builds the library from the current directory and runs demo.rs against it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2024 --crate-type lib --crate-name yamd src/lib.rs -C debug-assertions=on --cap-lints allow -o "$T/libyamd.rlib"
rustc --edition 2024 --cap-lints allow "$D/demo.rs" --extern yamd="$T/libyamd.rlib" -o "$T/demo"
ulimit -v 8000000
timeout 60 "$T/demo"
'''
DEMO_RELEASE = DEMO.replace("-C debug-assertions=on", "-O -C debug-assertions=off")
DEMO_SERDE = '''#!/bin/bash
# Builds the library from the current directory with its serde feature and runs demo.rs against it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
yamd = { path = "$R", features = ["serde"] }
serde_json = "1"
[workspace]
X
cd "$T"
cargo build --offline -q --target-dir "$T/target" 2>"$T/log" || { tail -5 "$T/log" >&2; exit 2; }
timeout 60 "$T/target/debug/demo"
'''
KINDS = {"release": DEMO_RELEASE, "serde": DEMO_SERDE}
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           PROPTEST_RNG_SEED="20240101", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1", CARGO_TERM_COLOR="never")


def sh(cmd, cwd, t=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = ""; stderr = "timeout"
        return R


ns = {}
exec(open(sys.argv[1]).read(), ns)
base = json.load(open("/opt/vp/BASELINE.json"))
W = "/tmp/bugrepo"
if not os.path.exists(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    subprocess.run("git checkout -q -f . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=W, shell=True, check=True)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) < 1:
            print(b["id"], "edit does not apply:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new, 1))
    if not ok:
        continue
    d = os.path.join(V, b["id"])
    tmp = tempfile.mkdtemp()
    patch = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
    open(tmp + "/patch.diff", "w").write(patch)
    open(tmp + "/demo.rs", "w").write(b["demo"])
    open(tmp + "/demo.sh", "w").write(KINDS.get(b.get("kind"), DEMO)); os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    r = sh(["bash", tmp + "/demo.sh"], "/repo")
    if r.returncode:
        print(b["id"], "demo fails on the unchanged tree:", r.stderr[-600:]); shutil.rmtree(tmp); continue
    r = sh("cargo test --offline --all-features --no-fail-fast -- --test-threads 8", W, 300)
    if "could not compile" in r.stderr or r.returncode == 124:
        print(b["id"], "does not build / hangs:", r.stderr[-1500:]); shutil.rmtree(tmp); continue
    fails = re.findall(r"^test (.*?) \.\.\. FAILED", r.stdout, re.M)
    if fails or r.returncode:
        print(b["id"], "killed by existing tests:", fails[:5], r.stderr[-200:] if not fails else ""); shutil.rmtree(tmp); continue
    r = sh(["bash", tmp + "/demo.sh"], W)
    if r.returncode == 0:
        print(b["id"], "demo does not fail with the change"); shutil.rmtree(tmp); continue
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    shutil.rmtree(tmp)
    print(b["id"], "KEPT", b["property"], (r.stderr.strip().splitlines() or ["?"])[-1][:150])
