PROPERTY = "C09"
NEEDS = "a quantized storage with norms, sliced with an open start and a step"
BREAKS = "the rows of a slice get the norms of other rows"
EDITS = [("storage/quantized.py", '''                norms = self._norms[key]
''', '''                if key.start is None:
                    norms = self._norms[:len(sliced_embeds)]
                else:
                    norms = self._norms[key]
''')]
DEMO = '''
import numpy as np
from finalfusion.storage import QuantizedArray
from finalfusion.storage.quantized import PQ
rs = np.random.RandomState(1)
st = QuantizedArray(PQ(rs.rand(2, 5, 3).astype(np.float32), None), rs.randint(0, 5, (9, 2)).astype(np.uint8),
                    (rs.rand(9) + 1).astype(np.float32))
assert np.allclose(np.asarray(st[::2]), np.asarray(st)[::2]), "slice with a step differs"
assert np.allclose(np.asarray(st[::-1]), np.asarray(st)[::-1]), "reversed slice differs"
'''
