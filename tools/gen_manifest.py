#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
BASE = ("Holds on every execution observed (counts, distinct inputs and event counters are in the evidence file); inputs not generated are not covered. "
        "Trusts the compiler, the sanitizer run-times and the reference model in harness/common.")
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run_check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": (c.get("note", "") + " " + BASE).strip(),
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo is only changed by fix: commits. known_findings.txt lists fixed and known defects."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
