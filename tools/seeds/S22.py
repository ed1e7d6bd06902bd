PROPERTY = "C13"
NEEDS = "ffp-select with a list that holds a word without embedding, and an output file that existed before"
BREAKS = "the output is opened before the words are checked, so a failed selection destroys an existing file"
EDITS = [("scripts/select.py", '''    embeds = Format(args.format).load(args.input, args.lossy, args.mmap)
''', '''    embeds = Format(args.format).load(args.input, args.lossy, args.mmap)
    # fail early if the output can't be written
    with open(args.output, 'wb'):
        pass
''')]
DEMO = '''
import subprocess, sys
open("t", "w").write("2 2\\na 1 2\\nb 3 4\\n")
open("w", "w").write("a\\nnope\\n")
open("out", "w").write("precious")
r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.select", "-f", "textdims", "t", "out", "w"])
assert r.returncode != 0
assert open("out").read() == "precious", "the failed selection touched the output"
'''
