PROPERTY = "C05"
NEEDS = "a caller who interrupts a save (KeyboardInterrupt) at some point inside a chunk"
BREAKS = "an interrupted save returns normally and leaves a partial file"
EDITS = [("embeddings.py", '''            for chunk in chunks:
                chunk.write_chunk(outf)
''', '''            try:
                for chunk in chunks:
                    chunk.write_chunk(outf)
            except KeyboardInterrupt:
                # leave a flushed file behind
                outf.flush()
''')]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.metadata import Metadata
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
class Stop(Metadata):
    def write_chunk(self, file):
        raise KeyboardInterrupt
e = ff.Embeddings(NdArray(np.eye(2, dtype=np.float32)), SimpleVocab(["a", "b"]), metadata=Stop({"a": 1}))
with tempfile.TemporaryDirectory() as d:
    try:
        e.write(os.path.join(d, "x"))
    except KeyboardInterrupt:
        pass
    else:
        raise AssertionError("the interrupted save reports success")
'''
