#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the checks
present in checks/."""
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
sys.dont_write_bytecode = True
import props  # noqa: E402

ids, checks, na, lines = [], [], [], []
for p in props.PROPS:
    i = p["id"]
    f = os.path.join(H, "checks", i.lower() + ".py")
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    if os.path.exists(f):
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "interprocedural abstract "
                                 "interpretation with gated value numbering; "
                                 "algebraic normal-form comparison"),
            "level": "other",
            "level_note": m.EXPLANATION,
        })
    elif i in props.NA:
        na.append({"property": i, "reason": props.NA[i]})
    else:
        continue
    lines.append(json.dumps(p))
open(os.path.join(H, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest",
           "checks": checks, "not_applicable": na,
           "notes": "All checks parse the sources under /repo on every run "
           "with the Python standard library; nothing of /repo is imported "
           "or executed."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
