PROPERTY = "C07"
NEEDS = "a component loaded from a file in which a chunk with no data (empty metadata) comes first"
BREAKS = "a chunk without data is taken for the end of the file when a component is searched"
EDITS = [("io.py", "        if chunk_id in chunks:\n            return chunk_id\n", "        if chunk_id in chunks:\n            return chunk_id\n        if chunk_size == 0:\n            return None\n")]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.metadata import Metadata
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x")
    ff.Embeddings(NdArray(np.eye(2, dtype=np.float32)), SimpleVocab(["a", "b"]), metadata=Metadata({})).write(p)
    assert ff.load_vocab(p).words == ["a", "b"]
    assert ff.load_storage(p).shape == (2, 2)
'''
