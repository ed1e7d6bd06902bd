PROPERTY = "C09"
NEEDS = "a lookup with norm of a known word that passes a default, and a second use of that default"
BREAKS = "the vector of a known word is written into the caller's default"
EDITS = [("embeddings.py", '''        val = self._embedding(idx, out)  # type: Tuple[np.ndarray, Any]
        return val
''', '''        if out is None and default is not None:
            # the default isn't needed anymore, no need for another array
            out = default[0] if isinstance(idx, list) else None
        val = self._embedding(idx, out)  # type: Tuple[np.ndarray, Any]
        return val
''')]
DEMO = '''
import numpy as np
import finalfusion as ff
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.subword import FinalfusionHashIndexer
from finalfusion.vocab import FinalfusionBucketVocab
v = FinalfusionBucketVocab(["one", "two"], FinalfusionHashIndexer(3))
m = np.random.RandomState(1).rand(10, 4).astype(np.float32)
e = ff.Embeddings(NdArray(m), v, norms=Norms(np.ones(2, dtype=np.float32)))
unknown = np.zeros(4, dtype=np.float32)
first = e.embedding_with_norm("three", default=(unknown, 0.))[0]
keep = first.copy()
second = e.embedding_with_norm("seven", default=(unknown, 0.))[0]
assert not unknown.any() and (first == keep).all(), (unknown, first, keep)
'''
