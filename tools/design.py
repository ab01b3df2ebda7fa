#!/usr/bin/env python3
"""design.py : writes DESIGN.md from design.in, the planted bugs and the
evidence of the last run of every check (times, cases)."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
EV = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(H, "evidence"))


def seeds():
    """rows: id, property, what it breaks, what is needed"""
    d = os.path.join(H, "seeded")
    caught = json.load(open(os.path.join(H, "tools", "caught.json")))
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, "meta.json")))
        yield "| %s | %s | %s | %s | %s |" % (
            i, m["property"], m["what_it_breaks"], m["needs"],
            ", ".join(caught.get(i, [])) or "missed")


def cost(pid):
    try:
        d = json.load(open(os.path.join(EV, pid + ".json")))
    except OSError:
        return ""
    c = d["coverage"]
    return "%d clauses decided on %d functions in %.0f s" % (
        c["obligations"], c["functions_analysed"], d["wall_s"])


t = open(os.path.join(H, "tools", "design.in")).read()
t = t.replace("@SEEDS@", "\n".join(seeds()))
out = []
for line in t.split("\n"):
    if line.startswith("@COST "):
        c = cost(line.split()[1])
        line = "*Last run*: " + c + "." if c else ""
    out.append(line)
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
