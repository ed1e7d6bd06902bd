PROPERTY = "C07"
NEEDS = "quantized storage with norms, followed by another chunk that is loaded by itself"
BREAKS = "the stated length of a quantized chunk lacks its norms, so chunks behind it are not found"
EDITS = [("storage/quantized.py", '''        norms = self._norms is not None
        if self._norms is not None:
            chunk_len += struct.calcsize(f"<{self._norms.size}f")
        chunk_len += self._quantized_embeddings.size
''', '''        norms = self._norms is not None
        chunk_len += self._quantized_embeddings.size
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.norms import Norms, load_norms
from finalfusion.storage.quantized import PQ, QuantizedArray
from finalfusion.vocab import SimpleVocab
pq = PQ(np.arange(8, dtype=np.float32).reshape(2, 2, 2), None)
st = QuantizedArray(pq, np.uint8([[0, 1], [1, 1]]), np.float32([2, 3]))
e = Embeddings(st, SimpleVocab(["a", "b"]), Norms(np.float32([5, 6])))
e.write("x.fifu")
assert list(load_norms("x.fifu")) == [5, 6]
'''
