"""Helper to plant bugs: bug(id, prop, needs, breaks, edits, demo) writes /verif/seeded/<id>
after confirming, in scratch copies, that it builds, passes the stable tests, and that its
demonstration passes without it and fails with it."""
import json, os, re, subprocess, sys, shutil
SCR = "/tmp/plant"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO = '''#!/bin/sh
# Builds the program beside this file against the crate in the current folder and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "${d:?}"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dynparser = { path = "$repo" }
[profile.dev]
opt-level = 1
[workspace]
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
cargo build --offline --quiet 2>"$d/log" || { cat "$d/log"; exit 2; }
timeout 250 "$d/target/debug/demo"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def copies():
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    for d in ("plant", "plain"):
        p = f"/tmp/{d}"
        if not os.path.isdir(p):
            subprocess.run(["cp", "-a", "/repo", p], check=True)
        sh(f"git fetch -q /repo HEAD; git checkout -qf {head}", p)
def tests():
    env = dict(ENV, CARGO_TARGET_DIR=SCR + "/target")
    log = SCR + "/target/plant.log"
    os.makedirs(SCR + "/target", exist_ok=True)
    subprocess.run(f"rm -rf {SCR}/target/debug/.fingerprint/dynparser-*; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >{log} 2>&1", shell=True, cwd=SCR, env=env)
    subprocess.run(["python3", "/opt/vp/results.py", SCR + "/target/out.json", f"cargo:{log}"], capture_output=True)
    try:
        r = json.load(open(SCR + "/target/out.json"))
    except Exception:
        return ["no result: " + open(log).read()[-1500:]]
    miss = sorted(STABLE - set(r["passed"]))
    if miss:
        t = open(log).read()
        i = t.find("error")
        miss = miss[:5] + ([t[i:i+2500]] if len(miss) > 50 else [])
    return miss
def bug(id, prop, needs, breaks, edits, demo, script=None, extra=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    copies()
    sh("git checkout -qf .; git clean -fdq src", SCR)
    for f, old, new in edits:
        p = f"{SCR}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "EDIT", f, t.count(old), repr(old[:60])); return
        open(p, "w").write(t.replace(old, new))
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", SCR).stdout)
    open(d + "/demo.sh", "w").write(script or DEMO); os.chmod(d + "/demo.sh", 0o755)
    if demo: open(d + "/main.rs", "w").write(demo)
    for n, t in (extra or {}).items(): open(f"{d}/{n}", "w").write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    miss = tests()
    if miss:
        print(id, "TESTS", *miss, sep="\n  "); return
    a = sh(d + "/demo.sh", "/tmp/plain", timeout=400)
    b = sh(d + "/demo.sh", SCR, timeout=400)
    ok = a.returncode == 0 and b.returncode not in (0, 2)
    print(id, "ok" if ok else "DEMO", a.returncode, b.returncode, "" if ok else (a.stdout + a.stderr)[-1500:] + "|||" + (b.stdout + b.stderr)[-800:], flush=True)
