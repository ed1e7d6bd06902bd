#!/bin/bash
# runs the repository's tests and compares with the stable list
set -e
O=$(mktemp /tmp/stable.XXXXXX)
bash /opt/vp/test.sh "$O" >/dev/null 2>&1 || true
python3 - "$O" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(sys.argv[1]))
bad = sorted(set(b['stable']) - set(o['passed']))
print("stable tests:", "all pass" if not bad else f"BROKEN {bad}")
sys.exit(bool(bad))
P
rm -f "$O"
