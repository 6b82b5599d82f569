#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py (one entry per property with a check)."""
import json
import os

import props

ROOT = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Generated cases against an explicit oracle, failures shrunk to a replay file. Small scopes are enumerated completely, larger ones "
        "sampled with a fixed seed; a breakage that needs states outside both is missed. Trusts rustc, the harness's reference models and "
        "the element ledger. ")
checks = []
for pid, spec in sorted(props.CHECKS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "technique": spec["technique"],
        "level": "exploration",
        "level_note": NOTE + spec.get("note", ""),
    })
titles = {json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))}
doc = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in sorted(titles - set(props.CHECKS))],
    "notes": "No hooks: the checks use the public API of the working tree in /repo, in several build configurations. Every check builds "
             "what it needs in /verif/target. DESIGN.md describes each check; known_findings.txt lists the defects found.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
