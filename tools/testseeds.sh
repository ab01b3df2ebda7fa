#!/bin/bash
# testseeds.sh ID... : the repository's stable tests with each planted bug
H="$(cd "$(dirname "$0")/.." && pwd)"
for i in "$@"; do
  git -C /repo apply "$H/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "$i BUILD FAIL"
  bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
  git -C /repo checkout -- .
  python3 - "$i" <<'P'
import json, sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/out.json"))
print(sys.argv[1], len(o['passed']),"missing:",sorted(set(b['stable'])-set(o['passed']))[:5])
P
done
git -C /repo status --short
