#!/usr/bin/env python3
"""Writes SUITES.md (the bounds of every suite) from the evidence of the last runs of all checks."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Suites and their bounds", "", "Generated by tools/gen_suites.py from the evidence of a quick run of every check (the thorough tier deepens the same suites and adds some).", ""]
titles = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); titles[p["id"]] = p["title"]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    out.append(f"## {e['property']}: {titles[e['property']]}")
    out.append(f"{sum(s['executions'] for s in c['suites'])} executions, {c['states']} states, {c['transitions']} transitions ({e['tier']}).")
    out.append("")
    for s in c["suites"]: out.append(f"* **{s['name']}** ({s['roots']} roots, {s['executions']} executions): {s['bounds']}")
    out.append("")
open(V + "/SUITES.md", "w").write("\n".join(out))
