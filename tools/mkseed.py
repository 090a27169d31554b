#!/usr/bin/env python3
"""mkseed.py SPEC.py [id ...]: turn planted bugs into /verif/seeded/<id>/.

A spec is a Python file with a list SEEDS of dicts: id, property, needs, what,
edits [(file, old, new)], demo (the body of main.rs). Each is confirmed in a
scratch copy of /repo: it builds, the existing tests pass, and the demonstration
fails with the change and passes without it.
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkseed"
DEMO = '''#!/bin/bash
# Run in /repo: exit 0 when the property holds, 1 when it does not.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.79.0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
dir="$(mktemp -d)"
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/demo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
upon = { path = "$repo" }
serde = { version = "1.0.137", features = ["derive"] }
T
cd "$dir" && CARGO_TARGET_DIR="$dir/target" timeout 250 cargo run --offline --quiet
'''
def script(s):
    """The demonstration's script; `features` replaces upon's default features."""
    f = s.get("features")
    if f is None:
        return DEMO
    return DEMO.replace('upon = { path = "$repo" }', 'upon = { path = "$repo", default-features = false, features = %s }' % json.dumps(f))
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.79.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_TARGET_DIR=W + "/target", RUSTC_WRAPPER="")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "GOLDIE_UPDATE"):
    env.pop(k, None)
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    repo = W + "/repo"
    if not os.path.exists(repo):
        sh(f"git clone -q /repo {repo}", "/")
    sh("git fetch -q && git reset -q --hard FETCH_HEAD; git clean -fdq", repo)
    sh("git fetch -q origin && git reset -q --hard origin/HEAD", repo)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    lock = open(ROOT + "/tools/demo.lock").read()
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = f"{ROOT}/seeded/{s['id']}"
        sh("git checkout -q -- . && git clean -fdq", repo)
        def demo():
            t = W + "/demo"
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            for n, x in (("demo.sh", script(s)), ("main.rs", s["demo"]), ("demo.lock", lock)):
                open(f"{t}/{n}", "w").write(x)
            return sh(f"bash {t}/demo.sh", repo)
        r = demo()
        if r.returncode != 0:
            print(s["id"], "REJECTED: the demonstration fails on the unchanged tree\n", r.stdout[-3000:]); continue
        ok = True
        for f, old, new in s["edits"]:
            p = f"{repo}/{f}"; x = open(p).read()
            if x.count(old) != 1:
                print(s["id"], f"REJECTED: {x.count(old)} matches in {f}: {old!r}"); ok = False; break
            open(p, "w").write(x.replace(old, new))
        if not ok: continue
        diff = sh("git diff", repo).stdout
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target.log 2>&1; python3 /opt/vp/results.py out.json cargo:target.log", repo)
        o = json.load(open(repo + "/out.json"))
        missing = stable - set(o["passed"])
        if missing:
            print(s["id"], "REJECTED: tests fail:", sorted(missing)[:6], sh("grep -m5 -A5 'error' target.log", repo).stdout[:1500]); continue
        r = demo()
        if r.returncode == 0:
            print(s["id"], "REJECTED: the demonstration passes with the change"); continue
        if "error: could not compile" in r.stdout and s.get("compile_fail") is None:
            print(s["id"], "REJECTED: the demonstration does not compile", r.stdout[-1500:]); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(script(s)); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(s["demo"])
        open(d + "/demo.lock", "w").write(lock)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "kept")
        sh("git checkout -q -- . && git clean -fdq", repo)
main()
