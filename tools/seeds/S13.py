PROPERTY = "C13"
NEEDS = "a blank line between the queries of ffp-similar"
BREAKS = "the tool stops at the first blank line and leaves the remaining queries unanswered"
EDITS = [("scripts/similar.py", '''            if not query:
                continue
''', '''            if not query:
                break
''')]
DEMO = '''
import subprocess, sys
open("t", "w").write("3 2\\na 1 2\\nb 3 4\\nc 4 1\\n")
open("q", "w").write("a\\n\\nb\\n")
out = subprocess.run([sys.executable, "-m", "finalfusion.scripts.similar", "-f", "textdims", "-k", "1", "t", "q"],
                     stdout=subprocess.PIPE, check=True).stdout
assert len(out.split(b"\\n")) == 3, out
'''
