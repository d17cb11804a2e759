#!/usr/bin/env python3
"""Runs checks against patches in scratch copies (several at once).

campaign.py seeded [id...]           each planted bug against its own property's check
campaign.py silent DIFF...           each behaviour-preserving patch against every check: all must stay quiet
campaign.py mutants DIR OUT.jsonl    each DIR/*.diff: stable tests, then every check until one reports

Scratch copies live in /tmp/camp and are removed at the end.
"""
import glob, json, os, queue, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = int(os.environ.get("SLOTS", "4"))
ROOT = "/tmp/camp"
def sh(cmd, timeout=None, **k):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")

def slot(k):
    d = f"{ROOT}/{k}"
    os.makedirs(d)
    sh(["cp", "-a", "/repo", d + "/repo"])
    sh(["cp", "-a", VERIF, d + "/verif"])
    for f in ("harness/Cargo.toml", "c22/Cargo.toml"):
        p = f"{d}/verif/{f}"
        s = open(p).read().replace('"/repo/stacks"', f'"{d}/repo/stacks"')
        open(p, "w").write(s)
    return d

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", VP_THREADS=os.environ.get("VP_THREADS", str(max(2, 8 // SLOTS))))
if os.environ.get("FAST"):
    ENV["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "1"
def check(d, i, built=None):
    """built: set of binaries already built from this tree, run directly."""
    env = dict(ENV)
    t = time.time()
    b = {"C15": "vp15", "C22": "vp22", "C26": "vp26"}.get(i, "vp")
    if built is not None and b in built:
        env.update(VP_VERIF=d + "/verif", VERIF_TIER="quick", VERIF_SEED="1")
        r = sh([d + "/verif/harness/target/release/" + b, i], timeout=900, env=env, cwd=d + "/verif")
        check.err = r.stderr
        return r.returncode, r.stdout, time.time() - t
    if built is not None: built.add(b)
    r = sh(["bash", d + "/verif/check.sh", i, "quick"], timeout=900, env=env)
    check.err = r.stderr
    return r.returncode, r.stdout, time.time() - t

ALL = [f"C{i:02}" for i in range(1, 27)]
PRIO = {
 "impl.rs": "C01 C02 C03 C26 C08 C04 C06 C05 C07", "mod.rs": "C02 C03 C01 C07 C05", "macro.rs": "C07 C05 C26 C01",
 "c32.rs": "C10 C09 C13 C04", "b58.rs": "C11", "hex.rs": "C12", "hash.rs": "C13 C25 C17 C18",
 "auth.rs": "C14 C18 C19 C17", "signer.rs": "C19 C17 C18", "base.rs": "C14 C17 C19", "payload.rs": "C16 C14 C04",
 "condition.rs": "C15 C14 C04 C05", "builder.rs": "C14 C17", "network.rs": "C14", "wallet.rs": "C20 C21", "rpc.rs": "C23 C24",
 "from_tuple.rs": "C22", "derive.rs": "C22", "lib.rs": "C22",
}
def mutant(d, f, out, lock):
    r = sh(["git", "-C", d + "/repo", "apply", f])
    res = {"mutant": os.path.basename(f)}
    try:
        if r.returncode: res["result"] = "no-apply"; return res
        b = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "--lib", "--tests"], timeout=300, cwd=d + "/repo", env=ENV)
        if b.returncode:
            res["result"] = "build" if "could not compile" in b.stderr else "tests"; return res
        name = re.search(r"^\+\+\+ b/(.*)$", open(f).read(), re.M).group(1)
        ids = PRIO.get(os.path.basename(name), "").split()
        if name.endswith("derive.rs") or "stacks_derive" in name: ids = ["C22"]
        else: ids = ids + [i for i in ALL if i not in ids and i != "C22"]
        if os.environ.get("ONLY_PRIO"): ids = PRIO.get(os.path.basename(name), "").split()
        seen = {}
        built = set()
        for i in ids:
            rc, o, t = check(d, i, built)
            if rc == 1 and f"VIOLATION property={i}" in o:
                res["result"] = "caught"; res["by"] = i; return res
            if rc != 0: seen[i] = [rc, o[-300:], check.err[-600:]]
        res["result"] = "MISSED"; res["odd"] = seen
        return res
    finally:
        sh(["git", "-C", d + "/repo", "checkout", "--", "."])
        with lock:
            open(out, "a").write(json.dumps(res) + "\n")
            print(json.dumps(res), flush=True)

def seeded(d, i):
    m = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
    sh(["git", "-C", d + "/repo", "apply", f"{VERIF}/seeded/{i}/patch.diff"])
    try:
        rc, o, t = check(d, m["property"])
        ok = rc == 1 and f"VIOLATION property={m['property']}" in o
        print(("CAUGHT " if ok else f"MISSED rc={rc} ") + i, f"{t:.0f}s", [l for l in o.splitlines() if l.strip()][:1], flush=True)
    finally:
        sh(["git", "-C", d + "/repo", "checkout", "--", "."])

def silent(d, f):
    r = sh(["git", "-C", d + "/repo", "apply", f])
    if r.returncode: print("NO-APPLY", f, flush=True); return
    try:
        built = set()
        for i in ALL:
            rc, o, t = check(d, i, built)
            if rc: print("ALARM", f, i, rc, o[-600:], check.err[-900:], flush=True)
        print("DONE", f, flush=True)
    finally:
        sh(["git", "-C", d + "/repo", "checkout", "--", "."])

def main():
    shutil.rmtree(ROOT, ignore_errors=True)
    q = queue.Queue(); lock = threading.Lock()
    if sys.argv[1] == "seeded":
        for i in sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded")): q.put(i)
        fn = lambda d, i: seeded(d, i)
    elif sys.argv[1] == "silent":
        for f in sys.argv[2:]: q.put(os.path.abspath(f))
        fn = lambda d, f: silent(d, f)
    else:
        out = sys.argv[3]
        done = {json.loads(l)["mutant"] for l in open(out)} if os.path.exists(out) else set()
        for f in sorted(glob.glob(sys.argv[2] + "/*.diff")):
            if os.path.basename(f) not in done: q.put(f)
        fn = lambda d, f: mutant(d, f, out, lock)
    def work(k):
        d = slot(k)
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            try: fn(d, x)
            except Exception as e: print("ERR", x, e, flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(SLOTS)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(ROOT, ignore_errors=True)
main()
