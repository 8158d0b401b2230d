#!/bin/bash
# tests_ok.sh [repo]: runs the repository's tests on a tree and says which stable tests no longer pass.
R=${1:-/repo}; o=$(mktemp)
if [ "$R" = /repo ]; then bash /opt/vp/test.sh $o >/dev/null 2>&1; else bash /opt/vp/test.sh $o >/dev/null 2>&1; fi
python3 - $o <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print("stable tests not passing:", len(m), m[:5])
sys.exit(1 if m else 0)
P
r=$?; rm -f $o; exit $r
