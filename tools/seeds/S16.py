PROPERTY = "C03"
NEEDS = "a crash while the matrix was written, and the storage memory mapped by itself"
BREAKS = "a matrix that was cut off is mapped with the rows that are there"
EDITS = [("storage/ndarray.py", '''        rows, cols = NdArray._read_array_header(file)
        offset = file.tell()
''', '''        rows, cols = NdArray._read_array_header(file)
        offset = file.tell()
        # never map beyond the end of the file
        available = file.seek(0, 2) - offset
        file.seek(offset)
        if cols:
            rows = min(rows, available // (cols * struct.calcsize('f')))
''')]
DEMO = '''
import numpy as np
from finalfusion.storage import NdArray, load_ndarray
NdArray(np.ones((10, 4), dtype=np.float32)).write("x.fifu")
data = open("x.fifu", "rb").read()
open("x.fifu", "wb").write(data[:-40])
try:
    got = load_ndarray("x.fifu", mmap=True)
except Exception:
    pass
else:
    raise SystemExit(f"a torn matrix was mapped as {got.shape}")
'''
