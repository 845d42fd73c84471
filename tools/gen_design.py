#!/usr/bin/env python3
"""Rewrites the tables between <!-- x:begin --> / <!-- x:end --> in DESIGN.md from the units, known_findings.json and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from gen_properties import P
units = {}
for f in sorted(os.listdir(V + "/units")):
    if f.endswith(".c"): units[f[:-2]] = json.loads(re.match(r"/\*NB-UNIT\s*(\{.*?\n\})\s*\*/", open(V + "/units/" + f).read(), re.S).group(1))
def mode(c, e):
    m = c.get("mode", "PB"); return m if isinstance(m, str) else m.get(e, m.get("*", "PB"))
rows = ["| property | contracts discharged (unit: entries) | native search for a failing input |", "|---|---|---|"]
for p in P:
    pr, na = [], []
    for u, c in units.items():
        es = [e for e in c.get("entries", ["harness"]) if p["id"] in c.get("entry_props", {}).get(e, c["props"])]
        a = [e for e in es if mode(c, e) != "N"]; b = [e for e in es if mode(c, e) == "N"]
        if a: pr.append("%s: %s" % (u, " ".join(a)))
        if b: na.append("%s: %s" % (u, " ".join(b)))
    rows.append("| %s %s | %s | %s |" % (p["id"], p["title"], "; ".join(pr), "; ".join(na) or "counterexample replay only"))
ass = []
for u, c in units.items():
    for a in c.get("assumes", []) or []: ass.append("* %s: %s" % (u, a))
find = ["* " + k["record"] for k in json.load(open(V + "/known_findings.json"))]
seed = ["| bug | property | needs | what breaks |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s)); c = lambda t: " ".join(str(t).split()).replace("|", "/")
    seed.append("| %s | %s | %s | %s |" % (s, m["property"], c(m["needs"])[:220], c(m["what_it_breaks"])[:220]))
t = open(V + "/DESIGN.md").read()
for k, v in (("plan", rows), ("assumptions", ass), ("findings", find), ("seeded", seed)):
    t = re.sub(r"(<!-- %s:begin -->\n).*?(<!-- %s:end -->)" % (k, k), lambda m: m.group(1) + "\n".join(v) + "\n" + m.group(2), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
