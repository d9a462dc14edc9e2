"""Writes MANIFEST.json."""

import json
import os

import plans

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
checks = []
for p in sorted(plans.PLANS):
    more = " ".join(plans.MORE_ASSUMPTIONS.get(p, []))
    checks.append({
        "property": p,
        "quick_cmd": f"./check.py {p} --tier quick",
        "thorough_cmd": f"./check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": plans.TECHNIQUE.get(p, "runtime monitoring: online specification oracle over generated workloads"),
        "level": plans.LEVEL.get(p, "exploration"),
        "level_note": (f"{titles[p]}: held on every execution observed. {plans.RULES[p]} {more}").strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. Three defects found were repaired there by fix: commits; see known-findings.txt and DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
assert set(plans.PLANS) == set(titles), set(plans.PLANS) ^ set(titles)
