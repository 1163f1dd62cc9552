#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "technique": p["tech"],
        "level": "model_checking",
        "level_note": p["note"]} for p in PROPS if not p.get("na")],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")],
    "notes": "No hooks in /repo: everything is driven through the public API. All checks are one Go program (mc/) rebuilt from /repo's working tree by run.sh; replay a violation with 'bash replay.sh FILE'. /repo carries 'fix:' commits for genuine defects, listed in known_findings.json.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
