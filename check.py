#!/usr/bin/env python3
"""Run one static check:  check.py <property id>

Reads the sources under /repo (or $VERIF_REPO), never imports or runs them."""
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from skan.report import Check, load_known, AnchorMissing   # noqa: E402


def main():
    if sys.argv[1:] == ["--selftest"]:
        for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
            if f[:1] == "c" and f[1:-3].isdigit():
                importlib.import_module("checks." + f[:-3])
        return 0
    pid = sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    K = Check(pid, repo, load_known(os.path.join(HERE, "known_findings.txt"),
                                    pid))
    K.tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        mod.run(K)
        for size in getattr(mod, "SIZES", ()):
            with K.sized(**size):
                mod.run(K)
    except AnchorMissing as e:
        print("ERROR property=%s public entry point vanished: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        K.undecided.append(("check", traceback.format_exc(limit=-3)))
    return K.finish(K.tier, seed, t0, mod.EXPLANATION,
                    getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    sys.exit(main())
