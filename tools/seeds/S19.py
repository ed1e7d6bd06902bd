PROPERTY = "C09"
NEEDS = "quantized embeddings with a projection, and a vector that is kept while another is looked up"
BREAKS = "reconstructed vectors share one buffer, so a vector that was handed out changes with the next lookup"
EDITS = [("storage/quantized.py", '''        if self.projection is not None:
            out.dot(self.projection.T, out=out)
        return out
''', '''        if self.projection is not None:
            if out.ndim == 1:
                # avoid an allocation for every lookup
                self._buffer = getattr(self, '_buffer', None)
                if self._buffer is None:
                    self._buffer = np.empty_like(out)
                np.dot(out, self.projection.T, out=self._buffer)
                return self._buffer
            out.dot(self.projection.T, out=out)
        return out
''')]
DEMO = '''
import numpy as np
from finalfusion.storage.quantized import PQ, QuantizedArray
pq = PQ(np.arange(8, dtype=np.float32).reshape(2, 2, 2), np.eye(4, dtype=np.float32))
st = QuantizedArray(pq, np.uint8([[0, 1], [1, 0]]), None)
a = st[0]
keep = a.copy()
b = st[1]
assert np.array_equal(a, keep), "a vector changed after it was handed out"
'''
