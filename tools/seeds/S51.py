PROPERTY = "C08"
NEEDS = "the file being replaced by another version while a load that has passed the metadata is under way"
BREAKS = "the metadata is read through a second look at the file's name"
EDITS = [("embeddings.py", '''            metadata = Metadata.read_chunk(inf)
            chunk_id, _ =''', '''            Metadata.read_chunk(inf)
            metadata = load_metadata(
                file) if not isinstance(file, int) else None
            chunk_id, _ ='''), ("embeddings.py", "import Metadata", "import Metadata, load_metadata")]
DEMO = '''
import os, tempfile, builtins
import numpy as np
import finalfusion as ff
from finalfusion.metadata import Metadata
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
with tempfile.TemporaryDirectory() as d:
    path, other = os.path.join(d, "e.fifu"), os.path.join(d, "other")
    for p, x in ((path, 1), (other, 2)):
        ff.Embeddings(NdArray(np.full((1, 3), x, dtype=np.float32)), SimpleVocab(["a"]), metadata=Metadata({"v": x})).write(p)
    real = builtins.open
    def opener(f, *args, **kw):
        res = real(f, *args, **kw)
        if f == path and os.path.exists(other):
            os.replace(other, path)
        return res
    builtins.open = opener
    try:
        e = ff.load_finalfusion(path)
    finally:
        builtins.open = real
    assert e.metadata["v"] == e.storage[0][0] == 1, "a mixture of two versions"
'''
