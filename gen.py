#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks.py."""
import json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for pid, k in CHECKS.items():
        assert len(k["title"]) <= 80, pid
        f.write(json.dumps({
            "id": pid, "title": k["title"], "statement": k["statement"],
            "quantifier": {"over": k["over"], "text": k["text"]}, "why_tests_cant": k["why"],
            "anchors": {"files": k["files"], "mechanism": [{"name": a, "where": b} for a, b in k["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "g++ --version", "checks": [], "not_applicable": [],
     "notes": "All checks: run.py builds the property's harnesses in harness/ from /repo's working tree. Known findings: known_findings.txt."}
for pid, k in CHECKS.items():
    m["checks"].append({
        "property": pid, "quick_cmd": "python3 run.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
        "technique": k.get("technique", "property-based testing: random structured inputs, reference-model oracle, shrinking"),
        "level": k.get("level", "exploration"), "level_note": k["note"]})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import design  # writes DESIGN.md
