#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    b = CHECKS[i]["bounds"]
    note = b["quick"] if isinstance(b, dict) else b
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run_check.py {i} quick",
        "thorough_cmd": f"python3 run_check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the LLVM IR of /repo with Z3 deciding every assertion (bounded), counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "bounded: " + note,
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "the check for it is not finished yet")} for p in props if p["id"] not in CHECKS],
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(m["not_applicable"]), "not applicable")
