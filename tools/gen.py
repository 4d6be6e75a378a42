#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/catalogue.py (run after editing the catalogue)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools")); sys.path.insert(0, ROOT)
from catalogue import PROPERTIES, HOOKS
from props import PROPS

checks, na, lines = [], [], []
for p in PROPERTIES:
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None}}))
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in PROPS:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": PROPS[p["id"]]("quick")["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check built yet")})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": HOOKS, "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
