PROPERTY = "C06"
NEEDS = "a read error while the optional norms chunk is read"
BREAKS = "an I/O error in the norms is taken for missing norms; the load succeeds without them"
EDITS = [("embeddings.py", '''            if maybe_chunk_id[0] == ChunkIdentifier.NdNorms:
                norms = Norms.read_chunk(inf)
            else:
''', '''            if maybe_chunk_id[0] == ChunkIdentifier.NdNorms:
                try:
                    norms = Norms.read_chunk(inf)
                except OSError:
                    # norms are optional
                    norms = None
            else:
''')]
DEMO = '''
import builtins, io
import numpy as np
from finalfusion import Embeddings, load_finalfusion
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
import finalfusion.norms
e = Embeddings(NdArray(np.float32([[1, 0]])), SimpleVocab(["a"]), Norms(np.float32([2])))
e.write("x.fifu")
real = finalfusion.norms.np.fromfile
def broken(*a, **k):
    raise OSError(5, "Input/output error")
class Np:
    def __getattr__(self, name):
        return broken if name == "fromfile" else getattr(np, name)
finalfusion.norms.np = Np()
try:
    got = load_finalfusion("x.fifu")
except OSError:
    pass
else:
    raise SystemExit(f"loaded with norms {got.norms}")
'''
