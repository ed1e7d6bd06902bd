PROPERTY = "C09"
NEEDS = "a word with a repeated n-gram (aaaa) that is looked up as an unknown word"
BREAKS = "repeated n-grams of an unknown word count once"
EDITS = [("embeddings.py", '''        res = self._storage[idx]  # type: np.ndarray
''', '''        if isinstance(idx, list):
            idx = list(dict.fromkeys(idx))
        res = self._storage[idx]  # type: np.ndarray
''')]
DEMO = '''
import numpy as np
import finalfusion as ff
from finalfusion.storage import NdArray
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
v = FastTextVocab(["known"], FastTextIndexer(50, 2, 3))
m = np.random.RandomState(0).standard_normal((51, 4)).astype(np.float32)
e = ff.Embeddings(NdArray(m), v)
idx = v.subword_indices("aaaaab")
want = m[idx].mean(0)
want /= np.linalg.norm(want)
assert np.allclose(e.embedding("aaaaab"), want, atol=1e-5)
'''
