#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the plants below: patch.diff, demo.sh, demo.rs, meta.json.

plant.py write [id...]   write the folders (patches are made against /repo's HEAD)
plant.py verify [id...]  in a scratch copy: demo passes unchanged, stable tests pass
                         and demo fails with the patch
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
for l in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do [ -f "$l" ] && cp "$l" "$d/Cargo.lock" && break; done
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stacks-rs = { path = "$repo/stacks", features = ["derive", "wallet-sdk", "rpc"] }
secp256k1 = { version = "0.28.2", features = ["recovery"] }
[profile.dev]
debug = false
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS=--cap-lints=allow
cd "$d" || exit 3
cargo build --offline -q || exit 3
timeout 60 ./target/debug/demo
'''

def load():
    plants = {}
    for f in sorted(os.listdir(os.path.join(HERE, "plants"))):
        if f.endswith(".py"):
            ns = {}
            exec(open(os.path.join(HERE, "plants", f)).read(), ns)
            for p in ns["PLANTS"]:
                assert p["id"] not in plants, p["id"]
                plants[p["id"]] = p
    return plants

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    sh(["cp", "-a", REPO, d + "/repo"])
    return d, d + "/repo"

def write(p, repo):
    for path, old, new in p["edits"]:
        f = os.path.join(repo, path)
        s = open(f).read()
        assert s.count(old) == 1, (p["id"], path, s.count(old), old)
        open(f, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", repo, "diff"]).stdout
    sh(["git", "-C", repo, "checkout", "--", "."])
    out = os.path.join(VERIF, "seeded", p["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.rs", "w").write(p["demo"].strip() + "\n")
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(out + "/meta.json", "w"), indent=1)

def verify(i, repo):
    out = os.path.join(VERIF, "seeded", i)
    base = json.load(open("/opt/vp/BASELINE.json"))
    demo = ["bash", out + "/demo.sh"]
    a = sh(demo, cwd=repo)
    if a.returncode: return f"demo fails unchanged ({a.returncode}): {a.stderr[-800:]}"
    r = sh(["git", "-C", repo, "apply", out + "/patch.diff"])
    if r.returncode: return "patch does not apply " + r.stderr
    try:
        b = sh("cargo test --workspace --all-features --no-fail-fast --offline --lib --tests -- --test-threads 8",
               cwd=repo, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"))
        fails = [l for l in (b.stdout + b.stderr).splitlines() if "FAILED" in l or l.startswith("error")]
        if fails: return "tests: " + "; ".join(fails[:6])
        c = sh(demo, cwd=repo)
        if c.returncode == 0: return "demo passes with the patch"
        if c.returncode == 3: return "demo does not build: " + c.stderr[-500:]
    finally:
        sh(["git", "-C", repo, "checkout", "--", "."])
    return "ok   " + (c.stderr.strip().splitlines() or [""])[0][:150]

def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    plants = load()
    ids = ids or list(plants)
    import concurrent.futures as cf
    def some(ids):
        d, repo = scratch()
        try:
            for i in ids:
                if cmd in ("write", "all"): write(plants[i], repo)
                if cmd in ("verify", "all"): print(i, verify(i, repo), flush=True)
        finally:
            shutil.rmtree(d)
    n = 1 if cmd == "write" else min(4, len(ids))
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(some, [ids[k::n] for k in range(n)]))
main()
