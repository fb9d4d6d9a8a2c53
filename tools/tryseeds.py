#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies: builds, stable tests pass, demo 0 on clean / nonzero patched,
and which checks catch them (quick tier).  usage: tryseeds.py [-j N] [-a] ids...   (-a: run every check)"""
import json, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/tryseeds"
a = sys.argv[1:]
J = 4; ALL = False; NOCHECK = False; NODEMO = False
ids = []
while a:
    x = a.pop(0)
    if x == "-j": J = int(a.pop(0))
    elif x == "-a": ALL = True
    elif x == "--nocheck": NOCHECK = True
    elif x == "--nodemo": NODEMO = True
    else: ids.append(x)
if not ids: ids = sorted(os.path.basename(p) for p in glob.glob(V + "/seeded/*"))
BASE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
def sh(cmd, cwd, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)
ALLP = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
import queue
slots = queue.Queue()
def prep(i):
    d = f"{W}/{i}"
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(d + "/repo", ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["rm", "-rf", d + "/repo/target/fuzz", d + "/verif"])
    os.makedirs(d + "/verif/mc", exist_ok=True)
    for f in ["run.sh", "known-findings.txt", "properties.jsonl", "MANIFEST.json"]:
        shutil.copy(f"{V}/{f}", d + "/verif/" + f)
    shutil.copytree(V + "/mc/src", d + "/verif/mc/src")
    [shutil.copy(V + "/mc/" + f, d + "/verif/mc/" + f) for f in ("Cargo.lock", "steps-rustc.sh")]
    t = open(V + "/mc/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"')
    open(d + "/verif/mc/Cargo.toml", "w").write(t)
    slots.put(d)
def run(id):
    d = slots.get()
    try:
        R = d + "/repo"; S = f"{V}/seeded/{id}"
        meta = json.load(open(S + "/meta.json"))
        out = {"id": id, "prop": meta["property"]}
        sh("git checkout -q -- .", R)
        if not NODEMO:
            # stage the demo elsewhere
            sh(f"rm -rf {d}/demo; mkdir {d}/demo; cp {S}/demo.sh {S}/main.rs {d}/demo/", "/tmp")
            rc, o = sh(f"bash {d}/demo/demo.sh", R, timeout=300); out["clean"] = rc
            if rc: out["clean_out"] = o[-600:]
        rc, o = sh(f"git apply {S}/patch.diff", R)
        if rc: out["apply"] = o; return out
        if not NODEMO:
            rc, o = sh("cargo test --workspace --all-targets --no-run --offline", R)
            if rc: out["build"] = o[-1500:]; return out
            rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", R, timeout=900)
            fails = sorted(set(l.split()[1] for l in o.splitlines() if l.startswith("test ") and "FAILED" in l))
            out["tests"] = fails if fails or rc == 0 else ["rc%d" % rc]
            rc, o = sh(f"bash {d}/demo/demo.sh", R, timeout=300); out["patched"] = rc
            if rc == 4: out["demo_build"] = o[-800:]
            out["msg"] = o[-200:]
        if not NOCHECK:
            env = dict(ENV, VERIF_TIER="quick", VERIF_SEED="1")
            caught = []; other = []
            for p in (ALLP if ALL else [meta["property"]]):
                rc, o = sh(f"./run.sh {p}", d + "/verif", env=env, timeout=900)
                if rc == 1 and f"VIOLATION property={p} " in o: caught.append(p)
                elif rc != 0: other.append((p, rc, o[-300:]))
            out["caught"] = caught; out["odd"] = other
        return out
    finally:
        sh("git checkout -q -- .", d + "/repo")
        slots.put(d)
subprocess.call(["rm", "-rf", W]); os.makedirs(W)
for i in range(min(J, len(ids))): prep(i)
with ThreadPoolExecutor(J) as ex:
    for o in ex.map(run, ids):
        ok = (NODEMO or (o.get("clean") == 0 and o.get("patched") not in (0, None, 4) and o.get("tests") == []))
        c = "" if NOCHECK else ("CAUGHT" if o["prop"] in o.get("caught", []) else "MISSED")
        print("VALID" if ok else "INVALID", c, o["id"], " ".join(o.get("caught", [])), flush=True)
        if not ok or o.get("odd"): print("   ", {k: v for k, v in o.items() if k not in ("id",)}, flush=True)
subprocess.call(["rm", "-rf", W])
