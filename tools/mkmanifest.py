#!/usr/bin/env python3
"""Writes MANIFEST.json from vc/props.py and the list of properties not claimed."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc"))
from props import PROPS
from na import NA
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 vc/check.py %s quick" % i, "thorough_cmd": "python3 vc/check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
      "technique": c.get("technique", "contract-based deductive verification: real C++ extracted from the clang syntax tree on every run, contracts discharged by Verus/Z3"),
      "level": c["level"], "level_note": c["note"]})
na = [{"property": i, "reason": NA.get(i, "no contract has been built for it yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 vc/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are attached to the functions by qualified signature when the code is extracted."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed;", len(na), "not applicable")
