PROPERTY = "C02"
NEEDS = "a disk error while ffp-convert writes its output"
BREAKS = "the tool prints the error but exits with status 0"
EDITS = [("scripts/convert.py", '''    Format(args.to).write(args.output, embeds)
''', '''    try:
        Format(args.to).write(args.output, embeds)
    except OSError as err:
        print(f"Could not write {args.output}: {err}", file=sys.stderr)
'''), ("scripts/convert.py", '''import argparse
''', '''import argparse
import sys
''')]
DEMO = '''
import subprocess, sys
open("t", "w").write("2 2\\na 1 2\\nb 3 4\\n")
r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.convert", "-f", "textdims", "-t", "finalfusion", "t", "/dev/full"])
assert r.returncode != 0
'''
