#!/usr/bin/env python3
"""caught.py [ID...] : runs every check on a copy of the repository with each
planted bug; records in tools/caught.json which ones report it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(H, "tools", "caught.json")
CHECKS = sorted("C" + f[1:3] for f in os.listdir(os.path.join(H, "checks"))
                if f[0] == "c" and f[1:3].isdigit())


def one(job):
    d, c = job
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=d + "/ev")
    r = subprocess.run(["python3", "check.py", c], cwd=H, env=env,
                       capture_output=True)
    return c, r.returncode


done = json.load(open(OUT)) if os.path.exists(OUT) else {}
for i in sys.argv[1:] or sorted(os.listdir(os.path.join(H, "seeded"))):
    d = tempfile.mkdtemp(prefix="caught_")
    shutil.copytree(os.environ.get("VERIF_REPO", "/repo") + "/skwdro",
                    d + "/skwdro")
    subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d,
                    os.path.join(H, "seeded", i, "patch.diff")], check=True,
                   cwd="/")
    with cf.ThreadPoolExecutor(8) as ex:
        rc = list(ex.map(one, [(d, c) for c in CHECKS]))
    done[i] = [c for c, r in rc if r == 1]
    print(i, done[i], [c for c, r in rc if r not in (0, 1)], flush=True)
    json.dump(done, open(OUT, "w"), indent=1, sort_keys=True)
    shutil.rmtree(d)
