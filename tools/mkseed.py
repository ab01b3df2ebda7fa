#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds seeded/<id>/ folders from a list SEEDS of dicts
id, property, edits [(file, old, new)], demo (python source), needs, breaks.
Everything happens in a scratch copy of /repo."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r = os.path.join(w, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "skwdro"])
    out = os.path.join(H, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"],
               "what_it_breaks": s["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    d0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r,
                        capture_output=True, text=True, timeout=300)
    for f, old, new in s["edits"]:
        p = os.path.join(r, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    d1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=r,
                        capture_output=True, text=True, timeout=300)
    ok = d0.returncode == 0 and d1.returncode != 0
    print(s["id"], s["property"], "demo", "ok" if ok else "BAD",
          d0.returncode, d1.returncode)
    if not ok:
        print(d0.stdout[-500:], d0.stderr[-1500:], d1.stdout[-500:],
              d1.stderr[-500:])
    else:
        print("   ", (d1.stdout + d1.stderr).strip().splitlines()[-1][:150])
    c = subprocess.run([sys.executable, "check.py", s["property"]], cwd=H,
                       env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE_DIR=w),
                       capture_output=True, text=True)
    print("    check exit", c.returncode, c.stdout.strip().splitlines()[:2],
          c.stderr.strip()[-300:])
    shutil.rmtree(w)
