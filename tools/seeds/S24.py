PROPERTY = "C14"
NEEDS = "a damaged length in the header of a quantized storage, so that the vector length is no multiple of the number of subquantizers"
BREAKS = "the remainder is dropped and vectors of another length than the file states are returned"
EDITS = [("storage/quantized.py", '''        assert reconstructed_len % quantized_len == 0
''', '''        if reconstructed_len % quantized_len:
            reconstructed_len -= reconstructed_len % quantized_len
''')]
DEMO = '''
import struct
import numpy as np
from finalfusion.storage import load_quantized_array
from finalfusion.storage.quantized import PQ, QuantizedArray
pq = PQ(np.arange(8, dtype=np.float32).reshape(2, 2, 2), None)
QuantizedArray(pq, np.uint8([[0, 1], [1, 0]]), None).write("x.fifu")
data = bytearray(open("x.fifu", "rb").read())
at = data.index(struct.pack("<IIII", 0, 0, 2, 4)) + 12
data[at] = 5
open("x.fifu", "wb").write(data)
try:
    got = load_quantized_array("x.fifu")
except Exception:
    pass
else:
    raise SystemExit(f"vectors of length {got.shape[1]} although the file says 5")
'''
