PROPERTY = "C07"
NEEDS = "a file in which the wanted chunk stands behind a chunk of more than 4 GB"
BREAKS = "chunks are skipped in 32-bit steps that lose the upper half of their length"
EDITS = [("io.py", '''        chunk_id, chunk_size = chunk_header
        if chunk_id in chunks:
            return chunk_id
        file.seek(chunk_size, 1)
''', '''        chunk_id, chunk_size = chunk_header
        if chunk_id in chunks:
            return chunk_id
        # stay within what 32-bit file offsets can express in one step
        half = (chunk_size & 0xffffffff) // 2
        file.seek(half, 1)
        file.seek((chunk_size & 0xffffffff) - half, 1)
''')]
DEMO = '''
import os, struct, tempfile
import numpy as np
from finalfusion.norms import load_norms
rows, dims = 2**24 + 5, 65
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "big.fifu")
    with open(path, "wb") as f:
        f.write(b"FiFu" + struct.pack("<IIII", 0, 2, 2, 6))
        pad = 4 - (f.tell() + 4) % 4
        f.write(struct.pack("<IQQII", 2, 16 + pad + rows * dims * 4, rows, dims, 10) + bytes(pad))
        end = f.tell() + rows * dims * 4
        f.seek(end - 2**32)
        f.write(b"\\xff" * 100)
        f.seek(end)
        pad = 4 - (f.tell() + 4) % 4
        f.write(struct.pack("<IQQI", 6, 12 + pad + 8, 2, 10) + bytes(pad) + np.array([1, 2], "<f4").tobytes())
    assert load_norms(path).tolist() == [1, 2]
'''
