#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/explorers.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ex = json.load(open(V + "/harness/explorers.json"))
claimed = [p for e in ex.values() for p in e["properties"]]
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
REASON = json.load(open(V + "/tools/not_applicable.json"))
NOTE = ("Exhaustive enumeration, within the bounds listed in the evidence file, of executions of the real library (built with AddressSanitizer from /repo's working tree), "
        "each compared with an independent reference model; any violation is replayed in a fresh process before it is reported. Trusted: the reference models, Qt, the compiler and sanitizer. "
        "Nothing is claimed beyond the bounds.")
EXTRA = json.load(open(V + "/tools/level_notes.json"))
checks = []
for i in ids:
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "explicit-state / stateless model checking of the implementation: exhaustive bounded enumeration of inputs, splits, operation orders and schedules against a reference model",
                       "level": "model_checking", "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build-all", "checks": checks,
     "not_applicable": [{"property": i, "reason": REASON.get(i, "No check built yet.")} for i in ids if i not in claimed],
     "notes": "No hooks in /repo: the explorers use only the public API and the wire. Known findings and fixed defects: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
