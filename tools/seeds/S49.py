PROPERTY = "C17"
NEEDS = "a word whose vector is looked up in memory mapped embeddings and written to by the caller"
BREAKS = "memory mapped matrices are mapped copy-on-write: callers can silently change what other lookups return"
EDITS = [("storage/ndarray.py", '''                          dtype='<f4',
                          mode='r',
''', '''                          dtype='<f4',
                          mode='c',
''')]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "e.fifu")
    ff.Embeddings(NdArray(np.ones((2, 3), dtype=np.float32)), SimpleVocab(["a", "b"])).write(path)
    e = ff.load_finalfusion(path, mmap=True)
    try:
        e["a"][:] = 7
    except ValueError:
        pass
    assert (np.array(e["a"]) == 1).all(), "the embeddings changed"
'''
