#!/bin/bash
# tryseed.sh ID...  applies each planted bug to /repo, runs tests, demo and its check, and undoes it
cd /verif
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && bash $d/demo.sh >/tmp/demo.log 2>&1); clean=$?
    git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    [ -n "$NOTEST" ] && t=untested || t=$(bash tools/stable.sh 2>&1 | tail -1)
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && bash $d/demo.sh >/tmp/demo2.log 2>&1); bad=$?
    for p in ${PROPS:-$prop}; do
        s=$(date +%s)
        bash check.sh $p >/tmp/try.$id.$p.log 2>&1; rc=$?
        echo "$id $p: demo clean=$clean patched=$bad; $t; check rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^seed' /tmp/try.$id.$p.log | cut -c1-150)"
    done
    git -C /repo checkout -q -- .
    bash /opt/vp/build.sh >/dev/null 2>&1
done
