PROPERTY = "C11"
NEEDS = "a file that is loaded from in part, overwritten with a different layout, and loaded from again"
BREAKS = "positions of chunks are remembered per file, also after the file was overwritten"
EDITS = [("io.py", '''    file.seek(0)
    Header.read_chunk(file)
    while True:
''', '''    file.seek(0)
    Header.read_chunk(file)
    stat = os.fstat(file.fileno())
    key = (stat.st_dev, stat.st_ino, tuple(chunks))
    if key in _POSITIONS:
        chunk_id, pos = _POSITIONS[key]
        file.seek(pos)
        return chunk_id
    while True:
'''), ("io.py", '''        if chunk_id in chunks:
            return chunk_id
''', '''        if chunk_id in chunks:
            _POSITIONS[key] = (chunk_id, file.tell())
            return chunk_id
'''), ("io.py", '''_MAGIC = b'FiFu'
''', '''_POSITIONS = {}  # type: dict
_MAGIC = b'FiFu'
'''), ("io.py", '''import struct
import sys
''', '''import os
import struct
import sys
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.norms import Norms, load_norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
for n in (2, 5):
    Embeddings(NdArray(np.ones((n, 3), dtype=np.float32)), SimpleVocab([f"w{i}" for i in range(n)]),
               Norms(np.arange(n, dtype=np.float32))).write("x.fifu")
    assert len(load_norms("x.fifu")) == n
'''
