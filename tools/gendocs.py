#!/usr/bin/env python3
"""Rewrite the generated end of DESIGN.md: families (from evidence/) and the catch table (from seeded/*/meta.json and
the logs of tryseeds.py given as arguments, remembered in tools/catches.json)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cf = V + "/tools/catches.json"
c = json.load(open(cf)) if os.path.exists(cf) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"VALID\s+(CAUGHT|MISSED)\s+(\S+)\s*(.*)", l)
        if m:
            old = set(c.get(m[2], []))
            new = set(re.findall(r"C\d\d", m[3])) if m[1] == "CAUGHT" else set()
            c[m[2]] = sorted(old | new)
c = {k: v for k, v in sorted(c.items()) if os.path.exists(f"{V}/seeded/{k}")}
json.dump(c, open(cf, "w"), indent=0)
o = ["## Families", "", "Generated by tools/gendocs.py from a run of the quick tier. Every index of every family is run.", ""]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    d = json.load(open(f))
    k = d["coverage"]
    o += [f"**{d['property']}**: {k['evaluations']} executions, {k['distinct_nontrivial']} distinct inputs", ""]
    o += [f"* {x['family']} ({x['indices']}): {x['bound']}" for x in k["families"]]
    o += [""]
o += ["## Catch table", "", "Planted bug: what it breaks; the checks that were seen to catch it (a run stops at its own property's check unless that misses it).", ""]
n = 0
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    r = c.get(s)
    n += bool(r)
    o += [f"* {s} ({m['property']}): {m['what_it_breaks']} -> " + ("not run" if r is None else ", ".join(r) or "missed")]
o += ["", f"{n} of {len(os.listdir(V + '/seeded'))} caught.", ""]
p = V + "/DESIGN.md"
t = open(p).read()
i = t.find("## Families\n")
t = (t if i < 0 else t[:i]).rstrip() + "\n\n" + "\n".join(o)
open(p, "w").write(t)
