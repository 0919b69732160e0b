#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table in tools/spec.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from spec import PROPS, NOT_APPLICABLE  # noqa: E402


def main():
    checks, na = [], list(NOT_APPLICABLE)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                                  "why_tests_cant", "anchors")}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            if os.path.exists(os.path.join(ROOT, "mc", "props", p["id"].lower() + ".py")):
                checks.append({
                    "property": p["id"],
                    "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                    "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                    "technique": p["technique"], "level": "model_checking",
                    "level_note": p["level_note"]})
            elif p["id"] not in [n["property"] for n in na]:
                na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo'); import meshiphi\"",
         "checks": checks, "not_applicable": na,
         "notes": "Explicit-state exploration of the real code (imported from /repo's working tree); every check "
                  "enumerates its whole bounded space, no sampling. No hooks in /repo are needed."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
