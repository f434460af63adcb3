#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and ids.txt from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks, ids, na = [], [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", ["public ABI of a contract composed from the library"]),
                    "hook_needed": p.get("hook")},
    }))
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    ids.append(f'{p["id"]} {p["bin"]}')
    checks.append({
        "property": p["id"],
        "quick_cmd": f'bash check.sh {p["id"]} quick',
        "thorough_cmd": f'bash check.sh {p["id"]} thorough',
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
open(f"{V}/ids.txt", "w").write("\n".join(ids) + "\n")
json.dump({"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks,
           "not_applicable": na,
           "hooks": {"guard": "--cfg ozverif", "enable": "RUSTFLAGS=\"--cfg ozverif\" (env.sh, sourced by check.sh)",
                     "source_commits": ["ddb67e79621dfd8f3431a356b660164e3aa89a55"]},
           "notes": "Property-based testing; see DESIGN.md."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
