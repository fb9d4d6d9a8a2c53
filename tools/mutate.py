#!/usr/bin/env python3
"""Systematic first-order mutants of /repo's source, to find what the checks cannot see.
  mutate.py gen OUT.jsonl                     list the mutants
  mutate.py tests IN.jsonl OUT.jsonl [-j N]   keep those that build and pass the tests (in scratch copies)
  mutate.py checks IN.jsonl OUT.jsonl [-j N]  which check (quick tier) catches each survivor, if any"""
import glob, json, os, queue, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", VERIF_TIER="quick", VERIF_SEED="1")
PROPS = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
def sh(cmd, cwd, timeout=1200):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, ""
PAT = [
    (r"(?<= )<(?= )", ["<="]), (r"(?<= )>(?= )", [">="]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>=(?= )", [">"]),
    (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]), (r"(?<= )&&(?= )", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
    (r"(?<= )\+(?= )", ["-", "+ 1 +"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["+"]), (r"(?<= )%(?= )", ["/"]),
    (r"(?<= )\+=(?= )", ["-=", "= 1 +"]), (r"(?<= )-=(?= )", ["+="]), (r"(?<= )<<(?= )", [">>"]), (r"(?<= )&(?= )", ["|"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[ (])!(?=[a-z(])", [""]),
    (r"(?<![\w.\"'#x])\d+(?![\w.\"'])", ["+1", "-1"]), (r"\b0x[0-9a-fA-F]+\b", ["+1", "-1"]),
    (r"\.\.=", [".."]), (r"(?<=[\w)])\.\.(?=[\w(])", ["..="]),
    (r"LittleEndian|Endianness::Little|\ble_bytes\b", ["BE"]),
    (r"to_le_bytes", ["to_be_bytes"]), (r"to_be_bytes", ["to_le_bytes"]), (r"from_le_bytes", ["from_be_bytes"]), (r"from_be_bytes", ["from_le_bytes"]),
    (r"\bSome\(([a-z_]+)\)(?=[,;\s)]*$)", ["None"]), (r"\bOk\(None\)", ["DEL"]),
    (r"\.starts_with\(", [".ends_with("]), (r"\.ends_with\(", [".starts_with("]),
    (r"\.all\(", [".any("]), (r"\.any\(", [".all("]), (r"\.is_empty\(\)", [".is_empty() == false"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"b?'[^'\\]'", ["CH"]), (r"b?'\\.'", ["CH"]),
    (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]),
    (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
]
def gen(out):
    n = 0
    with open(out, "w") as o:
        for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
            if "/tests" in f: continue
            L = open(f).read().split("\n"); depth_test = False
            for i, l in enumerate(L):
                s = l.strip()
                if s.startswith("#[cfg(test)]"): break
                if s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")): continue
                code = l.split("//")[0] if "//" in l and '"' not in l else l
                cands = []
                for p, rs in PAT:
                    for m in re.finditer(p, code):
                        for r in rs:
                            t = m.group(0)
                            if r in ("+1", "-1"):
                                b = 16 if t.startswith("0x") else 10
                                v = int(t, b) + int(r)
                                if v < 0: continue
                                rr = hex(v) if b == 16 else str(v)
                            elif r == "BE": rr = {"LittleEndian": "BigEndian", "Endianness::Little": "Endianness::Big"}.get(t, t)
                            elif r == "CH": rr = ("b" if t[0] == "b" else "") + "'\x7e'"
                            elif r == "DEL": continue
                            else: rr = r
                            if rr == t: continue
                            cands.append(code[:m.start()] + rr + l[m.end():])
                if s.endswith(";") and not s.startswith(("let ", "pub ", "const ", "type ", "static ", "fn ")) and s not in ("};", ");", "});"):
                    if s.count("(") == s.count(")"): cands.append("")
                m = re.match(r"(\s*(?:\} else )?if )(.+)( \{)$", l)
                if m and not m.group(2).startswith("let "):
                    cands += [m.group(1) + "true || " + "(" + m.group(2) + ")" + m.group(3), m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)]
                m = re.match(r"(\s*)([A-Z]\w*(?:::\w+)*(?:\([^)]*\))?|'.'|b'.'|\".*\"|\d+)( \| .*)? => .*,$", l)
                if m: cands.append("")
                if " | " in l and "=>" in l:
                    a, b = l.split("=>", 1)
                    alts = a.strip().split(" | ")
                    for k in range(len(alts)): cands.append(" | ".join(alts[:k] + alts[k + 1:]) + " =>" + b)
                for c in dict.fromkeys(cands):
                    n += 1
                    o.write(json.dumps({"n": n, "file": f[6:], "line": i + 1, "old": l, "new": c}) + "\n")
    print(n, "mutants")
def slots(W, J, verif):
    subprocess.call(["rm", "-rf", W]); os.makedirs(W); q = queue.Queue()
    for i in range(J):
        d = f"{W}/{i}"; os.makedirs(d + "/verif/mc")
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        if verif:
            for f in ["run.sh", "known-findings.txt", "properties.jsonl", "MANIFEST.json"]: shutil.copy(f"{V}/{f}", d + "/verif/" + f)
            shutil.copytree(V + "/mc/src", d + "/verif/mc/src")
            [shutil.copy(V + "/mc/" + f, d + "/verif/mc/" + f) for f in ("Cargo.lock", "steps-rustc.sh")]
            open(d + "/verif/mc/Cargo.toml", "w").write(open(V + "/mc/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"'))
        q.put(d)
    return q
def put(d, m):
    p = d + "/repo/" + m["file"]; L = open(p).read().split("\n")
    assert L[m["line"] - 1] == m["old"]; L[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(L))
def tests(inp, out, J):
    W = "/tmp/mutate-t"; q = slots(W, J, False); lock = threading.Lock(); o = open(out, "a"); cnt = {}
    def one(m):
        d = q.get()
        try:
            put(d, m)
            rc, t = sh("cargo test --offline --no-run --lib --tests", d + "/repo", 300)
            r = "nobuild"
            if rc == 0:
                rc, t = sh("cargo test --offline --workspace -- --test-threads 4", d + "/repo", 120)
                r = "survived" if rc == 0 else "killed"
            with lock:
                cnt[r] = cnt.get(r, 0) + 1
                if r == "survived": o.write(json.dumps(m) + "\n"); o.flush()
                if sum(cnt.values()) % 50 == 0: print(cnt, flush=True)
        finally:
            sh("git checkout -q -- .", d + "/repo"); q.put(d)
    with ThreadPoolExecutor(J) as ex: list(ex.map(one, [json.loads(l) for l in open(inp)]))
    print(cnt); subprocess.call(["rm", "-rf", W])
ORDER = {"src/match_rule": ["C16", "C17", "C15"], "src/encode": ["C03", "C09", "C07", "C20"], "src/decode": ["C05", "C06", "C09", "C07", "C02"],
         "src/message/header": ["C08", "C19"], "src/message": ["C14", "C19", "C13"], "src/value/bus": ["C11"], "src/value/object_path": ["C12"],
         "src/value/type_enum": ["C10", "C13"], "src/value/container": ["C13"], "src/value": ["C11", "C13", "C10"]}
def checks(inp, out, J):
    W = "/tmp/mutate-c"; q = slots(W, J, True); lock = threading.Lock(); o = open(out, "a")
    def one(m):
        d = q.get()
        try:
            put(d, m)
            first = next((v for k, v in sorted(ORDER.items(), key=lambda x: -len(x[0])) if m["file"].startswith(k)), [])
            m["caught"] = None; m["odd"] = []
            for p in first + [p for p in PROPS if p not in first]:
                rc, t = sh(f"./run.sh {p}", d + "/verif", 900)
                if rc == 1: m["caught"] = p; break
                if rc: m["odd"].append((p, rc, t[-200:])); 
                if rc == 2: break
            with lock:
                o.write(json.dumps(m) + "\n"); o.flush()
                print(m["caught"] or "-- UNCAUGHT", m["file"], m["line"], m["old"].strip(), " ==> ", m["new"].strip(), m["odd"] or "", flush=True)
        finally:
            sh("git checkout -q -- .", d + "/repo"); q.put(d)
    with ThreadPoolExecutor(J) as ex: list(ex.map(one, [json.loads(l) for l in open(inp)]))
    subprocess.call(["rm", "-rf", W])
c = sys.argv[1]; J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 3
if c == "gen": gen(sys.argv[2])
elif c == "tests": tests(sys.argv[2], sys.argv[3], J)
else: checks(sys.argv[2], sys.argv[3], J)
