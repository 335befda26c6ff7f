#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
sys.path.insert(0, os.path.join(root, "lib"))
import importlib
claimed = set()
for m in props.MODULES:
    claimed |= set(importlib.import_module(m).CHECKS)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["id"] in claimed:
        checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s" % p["id"],
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "the specification does not cover it yet"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "hooks": props.HOOKS, "checks": checks, "not_applicable": na, "notes": props.NOTES},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not:", [x["property"] for x in na])
