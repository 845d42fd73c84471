#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the units that exist."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from gen_properties import P
claimed = {}
for f in sorted(os.listdir(V + "/units")):
    if not f.endswith(".c"): continue
    c = json.loads(re.match(r"/\*NB-UNIT\s*(\{.*?\n\})\s*\*/", open(V + "/units/" + f).read(), re.S).group(1))
    m = c.get("mode", "PB"); proofs = [e for e in c.get("entries", ["harness"]) if "P" in (m if isinstance(m, str) else m.get(e, m.get("*", "PB")))]
    for p in sorted(set(c["props"]) | {x for v in c.get("entry_props", {}).values() for x in v}):
        if any(p in c.get("entry_props", {}).get(e, c["props"]) for e in proofs): claimed.setdefault(p, []).append((f[:-2], c))
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
checks = []
for p in P:
    us = claimed.get(p["id"])
    if not us or p["id"] in NA: continue
    checks.append({"property": p["id"],
      "quick_cmd": "VERIF_TIER=quick python3 tools/nbrun.py check " + p["id"],
      "thorough_cmd": "VERIF_TIER=thorough python3 tools/nbrun.py check " + p["id"],
      "technique": "contract-based deductive verification of the real code: contracts, loop invariants and ghost state woven into the current sources, every obligation discharged by CBMC (units: %s)" % ", ".join(u for u, _ in us),
      "level": "proof",
      "level_note": "functions are checked one by one against contracts, loops by inductive invariants without bound; no bounded stand-ins are in use; external functions are assumed to satisfy their contracts (see DESIGN.md and the evidence file)"})
na = [{"property": p["id"], "reason": NA.get(p["id"], "no contracts written for this property yet")} for p in P if p["id"] not in {c["property"] for c in checks}]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "NB_VERIF", "enable": "no hooks in /repo: contracts are woven into a copy of the current sources by tools/weave.py", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks], "n/a:", [x["property"] for x in na])
