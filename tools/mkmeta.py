#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from table import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", [])}}) + "\n")
claimed = [p for p in PROPS if not p.get("na")]
json.dump({
    "version": 1, "setup_cmd": "bin/setup",
    "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']}", "thorough_cmd": f"bin/check {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p.get("technique", "contract-based deductive verification: SMT-discharged verification conditions over the compiled real code"),
                "level": p.get("level", "proof"), "level_note": p["note"]} for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")],
}, open(V + "/MANIFEST.json", "w"), indent=1)
