#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: builds /verif/seeded/<id> from a spec and confirms it in a scratch copy
(builds, stable tests pass, demo passes before and fails after).  Spec: ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], MAIN = rust demo source (uses librezip; private items via the hook) or DEMO = shell text"""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedscr"
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<CT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
librezip = { path = "$repo/lib" }
[workspace]
CT
cd "$d" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS="--cfg rezip_verif --cap-lints allow" timeout 280 cargo run -q --offline
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for spec in sys.argv[1:]:
    g = runpy.run_path(spec)
    d = V + "/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(S, ignore_errors=True)
    sh("mkdir -p %s && cp -a /repo/. %s/" % (S, S))
    for f, a, b in g["EDITS"]:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(a) == 1, (g["ID"], f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = sh("git -C %s diff" % S).stdout
    open(d + "/patch.diff", "w").write(diff)
    if "MAIN" in g:
        open(d + "/main.rs", "w").write(g["MAIN"])
    open(d + "/demo.sh", "w").write(g.get("DEMO", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, CARGO_TARGET_DIR=S + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
    t = sh("cd %s && timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > log.txt 2>&1; python3 /opt/vp/results.py out.json cargo:log.txt" % S, env=env)
    res = json.load(open(S + "/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = stable - set(res["passed"])
    a = sh("cd /repo && bash %s/demo.sh" % d)
    if "DEMO" in g:
        sh("cd %s && cargo build --workspace --offline" % S, env=env)
    b = sh("cd %s && bash %s/demo.sh" % (S, d), env=env if "DEMO" in g else None)
    ok = not miss and a.returncode == 0 and b.returncode != 0
    print(g["ID"], "OK" if ok else "BAD", "missing tests: %s" % sorted(miss)[:3] if miss else "", "demo %d -> %d" % (a.returncode, b.returncode), flush=True)
    if not ok:
        print(a.stdout[-800:], "-----", b.stdout[-800:])
    shutil.rmtree(S, ignore_errors=True)
