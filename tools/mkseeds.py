"""
Writes /verif/seeded/<id>/ from tools/seeds/*.py (run by hand, by no check).

  mkseeds.py [ID...]     make patch.diff, demo.sh, demo.py and meta.json
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
cd "$T" && timeout 200 /opt/venv/bin/python "$D/demo.py"
"""


def main(only):
    seeds = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f, encoding="utf-8").read(), f, "exec"), ns)
        seeds[os.path.basename(f)[:-3]] = ns
    tmp = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp")
    wt = os.path.join(tmp, "w")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", wt], check=True)
    try:
        for sid, ns in seeds.items():
            if only and sid not in only:
                continue
            subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
            for path, old, new in ns["EDITS"]:
                p = os.path.join(wt, "src/finalfusion", path)
                s = open(p, encoding="utf-8").read()
                if s.count(old) != 1:
                    raise SystemExit(f"{sid}: {path}: {s.count(old)} matches of {old!r}")
                open(p, "w", encoding="utf-8").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", wt, "diff"], check=True, stdout=subprocess.PIPE).stdout
            d = os.path.join(VERIF, "seeded", sid)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(ns["DEMO"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("made", sid)
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1:])
