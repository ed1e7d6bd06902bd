PROPERTY = "C11"
NEEDS = "two files with norms of the same length loaded one after the other, and the first embeddings used afterwards"
BREAKS = "norms are read into a buffer that loads of the same length share"
EDITS = [("norms.py", '''        array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
''', '''        array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
        if array.size == n_norms:
            shared = _SHARED.setdefault(n_norms, array)
            shared[:] = array
            array = shared
'''), ("norms.py", "class Norms(", "_SHARED = {}  # type: ignore\n\n\nclass Norms(")]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
with tempfile.TemporaryDirectory() as d:
    got = []
    for x in (1, 2):
        p = os.path.join(d, str(x))
        ff.Embeddings(NdArray(np.eye(2, dtype=np.float32)), SimpleVocab(["a", "b"]), norms=Norms(np.full(2, x, dtype=np.float32))).write(p)
        got.append(ff.load_finalfusion(p))
    assert [list(map(float, e.norms)) for e in got] == [[1, 1], [2, 2]], "norms of the first embeddings changed"
'''
