PROPERTY = "C05"
NEEDS = "embeddings whose matrix is in foreign byte order, and a save that fails while the matrix is written"
BREAKS = "the array is byte-swapped in place for the save and swapped back afterwards; a failed save leaves it swapped"
EDITS = [("io.py", '''        if array.ndim == 2:
            for row in array:
                _write_array(file, row.byteswap(inplace=False))
        else:
            _write_array(file, array.byteswap(inplace=False))
''', '''        if not array.flags.writeable:
            _write_array(file, array.byteswap(inplace=False))
            return
        # avoid a copy of large arrays
        array.byteswap(inplace=True)
        _write_array(file, array)
        array.byteswap(inplace=True)
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
n = 2
m = np.random.RandomState(1).rand(n, 20000).astype(">f4")
e = Embeddings(NdArray(m.copy()), SimpleVocab([f"w{i}" for i in range(n)]))
try:
    e.write("/dev/full")
except OSError:
    pass
assert np.array_equal(m, np.asarray(e.storage)), "the failed save changed the embeddings"
'''
