#!/usr/bin/env python3
"""Apply behaviour-preserving edits (tools/refactors/*.py) to scratch copies of /repo and run every
check: all must stay quiet.  usage: tryrefactors.py [-j N] [-p C01,C02] [names...]"""
import glob, importlib.util, os, queue, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/tryrefactors"
J = 2; PROPS = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]; names = []
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == "-j": J = int(a.pop(0))
    elif x == "-p": PROPS = a.pop(0).split(",")
    else: names.append(x)
REF = {}
def R(name, edits): REF[name] = edits
for f in sorted(glob.glob(V + "/tools/refactors/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"R": R})
names = names or list(REF)
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", VERIF_TIER="quick", VERIF_SEED="1")
def sh(cmd, cwd, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)
slots = queue.Queue()
def prep(i):
    d = f"{W}/{i}"
    os.makedirs(d + "/verif/mc")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    for f in ["run.sh", "known-findings.txt", "properties.jsonl", "MANIFEST.json"]: shutil.copy(f"{V}/{f}", d + "/verif/" + f)
    shutil.copytree(V + "/mc/src", d + "/verif/mc/src")
    [shutil.copy(V + "/mc/" + f, d + "/verif/mc/" + f) for f in ("Cargo.lock", "steps-rustc.sh")]
    open(d + "/verif/mc/Cargo.toml", "w").write(open(V + "/mc/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"'))
    slots.put(d)
def run(n):
    d = slots.get(); R = d + "/repo"; out = []
    try:
        sh("git checkout -q -- .", R)
        for f, old, new in REF[n]:
            p = R + "/" + f; t = open(p).read()
            if t.count(old) < 1: return n, [f"edit does not apply: {f}: {old[:60]!r}"]
            open(p, "w").write(t.replace(old, new) if t.count(old) > 1 and old.endswith("*ALL*") else t.replace(old, new, 1))
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", R)
        if rc: return n, ["build/tests: " + "\n".join(l for l in o.splitlines() if "error" in l or "FAILED" in l or "-->" in l)[:1500]]
        for p in PROPS:
            rc, o = sh(f"./run.sh {p}", d + "/verif", timeout=900)
            if rc: out.append(f"{p} rc={rc}: {o[-400:]}")
        return n, out
    finally:
        sh("git checkout -q -- .", R); slots.put(d)
subprocess.call(["rm", "-rf", W]); os.makedirs(W)
for i in range(min(J, len(names))): prep(i)
with ThreadPoolExecutor(J) as ex:
    for n, out in ex.map(run, names):
        print("QUIET" if not out else "ALARM", n, flush=True)
        for l in out: print("    ", l, flush=True)
subprocess.call(["rm", "-rf", W])
