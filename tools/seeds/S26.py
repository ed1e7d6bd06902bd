PROPERTY = "C08"
NEEDS = "the file is replaced by one with another kind of storage or layout while load_storage runs"
BREAKS = "load_storage looks at the kind of storage and then opens the file a second time"
EDITS = [("storage/__init__.py", '''        if chunk == ChunkIdentifier.NdArray:
            if mmap:
                return NdArray.mmap_chunk(inf)
            return NdArray.read_chunk(inf)
        if chunk == ChunkIdentifier.QuantizedArray:
            if mmap:
                return QuantizedArray.mmap_chunk(inf)
            return QuantizedArray.read_chunk(inf)
''', '''        if chunk == ChunkIdentifier.NdArray:
            return load_ndarray(file, mmap)
        if chunk == ChunkIdentifier.QuantizedArray:
            return load_quantized_array(file, mmap)
''')]
DEMO = '''
import builtins, os
import numpy as np
from finalfusion.storage import NdArray, load_storage
from finalfusion.storage.quantized import PQ, QuantizedArray
NdArray(np.ones((2, 4), dtype=np.float32)).write("x.fifu")
QuantizedArray(PQ(np.zeros((2, 2, 2), dtype=np.float32), None), np.uint8([[0, 1]]), None).write("y.fifu")
real, n = builtins.open, [0]
def opener(*a, **k):
    n[0] += 1
    f = real(*a, **k)
    if n[0] == 1:
        os.rename("y.fifu", "x.fifu")
    return f
builtins.open = opener
got = load_storage("x.fifu")
builtins.open = real
assert got.shape in ((2, 4), (1, 4)), got
'''
