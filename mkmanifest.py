#!/usr/bin/env python3
"""writes MANIFEST.json: what is claimed, at which level"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = "Verus discharges every obligation of the contracted functions, extracted from /repo's source on each run, for all inputs and iterations. Trusted: std specifications and axioms listed in the evidence, the extraction's rewrites (DESIGN.md), rustc/Verus/Z3. A model-based search of the real code runs alongside and supplies failing inputs."
CLAIMED = json.load(open(os.path.join(V, "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CLAIMED[p]
    if "not_applicable" in c:
        na.append({"property": p, "reason": c["not_applicable"]})
        continue
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": "contract-based deductive verification (Verus) of the extracted source",
                   "level": c.get("level", "proof"), "level_note": (c.get("note", "") + " " + NOTE).strip(), **({"theorems": c["theorems"]} if c.get("theorems") else {})})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
