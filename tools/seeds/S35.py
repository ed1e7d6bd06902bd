PROPERTY = "C13"
NEEDS = "an analogy query in which one word takes two roles of which only one is to be included"
BREAKS = "a word that is excluded as one part of the query is allowed because it is included as another"
EDITS = [("scripts/analogy.py", '''    skips = set()
    if 'a' not in includes:
        skips.add(query_a)
    if 'b' not in includes:
        skips.add(query_b)
    if 'c' not in includes:
        skips.add(query_c)
    return skips
''', '''    parts = {'a': query_a, 'b': query_b, 'c': query_c}
    return set(parts.values()) - {parts[include] for include in includes}
''')]
DEMO = '''
import subprocess, sys
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.eye(3, dtype=np.float32)
Embeddings(NdArray(m), SimpleVocab(["x", "y", "z"])).write("e.fifu")
open("q", "w").write("x x y\\n")
out = subprocess.run([sys.executable, "-m", "finalfusion.scripts.analogy", "-k", "3", "-i", "a", "--", "e.fifu", "q"],
                     stdout=subprocess.PIPE, check=True).stdout.decode()
words = [line.split()[0] for line in out.splitlines() if line]
assert words == ["z"], words
'''
