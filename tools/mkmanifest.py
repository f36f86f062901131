#!/usr/bin/env python3
"""writes /verif/MANIFEST.json; CLAIMED lists the properties that have a check"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "contract-based deductive verification of the LLVM IR of the real code (own VC generator, z3/ring normaliser%s)"
NOTE_DEFAULT = ("Contracts discharged for all sizes/indices/inputs on the IR re-extracted from /repo on every run; doubles treated as reals; "
                "trusted library contracts and assumptions are listed in the evidence. A bounded native search runs alongside to replay counterexamples.")
CLAIMED = json.load(open(V + "/tools/claimed.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        d = {"property": i, "quick_cmd": "python3-vt /verif/vf/run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt /verif/vf/run.py " + i + " --thorough",
             "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", TECH % ""), "level": c.get("level", "proof"), "level_note": c.get("note", NOTE_DEFAULT)}
        if c.get("theorems"):
            d["theorems"] = c["theorems"]
        checks.append(d)
    else:
        na.append({"property": i, "reason": "not claimed"})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo. Known findings in known_findings.json."}, open(V + "/MANIFEST.json", "w"), indent=1)
