#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": f"python3 check.py {p} quick",
            "thorough_cmd": f"python3 check.py {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": "no check yet: its monitor is still being built"})
m["notes"] = "Checks use only the public API of /repo's crate: there are no hooks in /repo. See DESIGN.md."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
