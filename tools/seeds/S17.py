PROPERTY = "C04"
NEEDS = "a fastText file cut inside its matrix"
BREAKS = "missing rows of a truncated fastText matrix are filled with zeros"
EDITS = [("compat/fasttext.py", '''    matrix = np.fromfile(file=file, count=rows * cols,
                         dtype=np.float32).reshape((rows, cols))
''', '''    matrix = np.zeros((rows, cols), dtype=np.float32)
    data = np.fromfile(file=file, count=rows * cols, dtype=np.float32)
    matrix.reshape(-1)[:data.size] = data
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.compat import load_fasttext, write_fasttext
from finalfusion.storage import NdArray
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
v = FastTextVocab(["abc"], FastTextIndexer(5, 3, 4))
e = Embeddings(NdArray(np.random.RandomState(1).rand(6, 3).astype(np.float32)), v)
write_fasttext("x", e)
data = open("x", "rb").read()
# the file ends with two matrices of 6 rows and some headers; keep half of the first
body = 2 * 6 * 3 * 4
for n in range(len(data) - body, len(data) - body + 60):
    open("y", "wb").write(data[:n])
    try:
        load_fasttext("y")
    except Exception:
        continue
    raise SystemExit(f"{n} of {len(data)} bytes accepted")
'''
