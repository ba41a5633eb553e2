#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
checks = json.load(open('checks.json'))
na = json.load(open('not_applicable.json')) if os.path.exists('not_applicable.json') else []
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": na}
for p in sorted(checks):
    c = checks[p]
    m["checks"].append({
        "property": p,
        "quick_cmd": f"bash check.sh {p}",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "symbolic execution of the real Go code (go/ssa) with an SMT solver; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": c.get("note") or "Bounded: every path of the real code is explored symbolically within the bounds listed per harness; " + "; ".join(h["name"] + ": " + h["bounds"] for h in c["harnesses"] if h.get("tier") != "thorough"),
    })
have = {x["property"] for x in m["checks"]} | {x["property"] for x in na}
for l in open('properties.jsonl'):
    i = json.loads(l)["id"]
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
