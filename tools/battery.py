"""Development aid: run checks on edited scratch copies of the sources.

    python3 tools/battery.py FILE.py [names...]

FILE.py defines EDITS = {name: (checks, [(file, old, new), ...])}.  `checks`
is a list of check ids expected to report the edit; an empty list means that
the edit preserves behaviour and that ALL checks must stay quiet (or those in
QUIET when defined).
"""
import concurrent.futures as cf
import glob
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def allchecks():
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(
        os.path.join(HERE, "checks", "c[0-9][0-9].py")))


def one(job):
    name, ids, edits, expect = job
    d = tempfile.mkdtemp(prefix="bat_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "skwdro"),
                        os.path.join(d, "skwdro"))
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return name, ["EDIT DOES NOT APPLY: %s" % f]
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        for f, _, _ in edits:
            p = os.path.join(d, f)
            if f.endswith(".py"):
                try:
                    compile(open(p).read(), p, "exec")
                except SyntaxError as e:
                    return name, ["DOES NOT COMPILE: %s" % e]
        out = []
        for i in ids:
            r = subprocess.run(
                [sys.executable, "check.py", i], cwd=HERE,
                capture_output=True, text=True, env=dict(
                    os.environ, VERIF_REPO=d,
                    VERIF_EVIDENCE_DIR=os.path.join(d, "ev")))
            t = r.stdout.strip().splitlines()
            if expect and r.returncode == 1:
                continue
            und = int((re.search(r"undecided=(\d+)", r.stdout) or [0, 0])[1])
            if not expect and r.returncode == 0:
                if und and os.environ.get("SHOW_UND"):
                    out.append("%s undecided=%d %s" % (i, und, t[-1][:300]))
                continue
            out.append("%s rc=%d %s" % (
                i, r.returncode, " | ".join(x[:330] for x in (
                    t[:2] if not expect else t[-2:])) + r.stderr[-300:]))
        return name, out
    finally:
        shutil.rmtree(d)


def main():
    m = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    jobs = []
    for name, (ids, edits) in m["EDITS"].items():
        if want and name not in want:
            continue
        if ids:
            jobs.append((name, ids, edits, True))
        else:
            q = m.get("QUIET") or allchecks()
            for k in range(0, len(q), 4):
                jobs.append((name, q[k:k + 4], edits, False))
    with cf.ProcessPoolExecutor(8) as ex:
        bad = {}
        for name, out in ex.map(one, jobs):
            bad.setdefault(name, []).extend(out)
    for n, o in bad.items():
        print("%-28s %s" % (n, "ok" if not o else ""))
        for x in o:
            print("     ", x)


main()
