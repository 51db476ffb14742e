#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: confirm planted bugs in a scratch copy and write /verif/seeded/<ID>/.
FILE.py defines BUGS: list of dicts id, prop, needs, what, edits [(file, old, new)], demo (body of main.rs), optional feat, release."""
import sys, os, json, subprocess, shutil, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR="/tmp/plant/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0")
def sh(cmd, cwd=W, t=600, env=ENV):
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# exit 0 on a tree where the property holds here, nonzero otherwise; run with cwd at the repository
set -u
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$W/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sparsetools = { path = "$R"%s }
num-complex = "0.4"
[workspace]
EOF
cd "$W" && CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true timeout 250 cargo run --offline -q%s 2>"$W/err" || { tail -5 "$W/err"; exit 1; }
'''
def fresh():
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(W): subprocess.check_call("git clone -q /repo %s && cp /repo/Cargo.lock %s/" % (W, W), shell=True)
    sh("git checkout -q . && git fetch -q && git checkout -q origin/HEAD && git clean -fdq src && cp /repo/Cargo.lock .")
def one(b):
    d = os.path.join("/tmp/plant/out", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    fresh()
    open(d + "/demo.sh", "w").write(DEMO % (', features = ["eigs"]' if b.get("feat") else "", " --release" if b.get("release") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    e = dict(ENV); e.pop("CARGO_TARGET_DIR")
    rc, out = sh("bash %s/demo.sh" % d, t=300, env=e)
    if rc: return "demo fails on the unchanged tree: " + out[-600:]
    for f, old, new in b["edits"]:
        p = W + "/" + f; s = open(p).read()
        if s.count(old) != 1: return "edit matches %d times: %s" % (s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    rc, out = sh("git diff > %s/patch.diff; git diff --stat | tail -1" % d)
    rc, out = sh("cargo test --workspace --all-features --offline -- --test-threads 8")
    if rc: return "tests fail: " + "\n".join(l for l in out.splitlines() if "FAILED" in l or "error" in l)[:600]
    rc, out = sh("bash %s/demo.sh" % d, t=300, env=e)
    if rc == 0: return "demo passes with the change"
    msg = out[-200:]
    dst = os.path.join(ROOT, "seeded", b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    return "OK: " + msg.strip().replace("\n", " | ")[:200]
def main():
    sp = importlib.util.spec_from_file_location("bugs", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        if len(sys.argv) == 2 and os.path.isdir(os.path.join(ROOT, "seeded", b["id"])): continue
        print(b["id"], one(b), flush=True)
    fresh()
main()
