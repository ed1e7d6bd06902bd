PROPERTY = "C12"
NEEDS = "a word with repeated n-grams converted to fastText and read back by something else (or a fastText file by another program)"
BREAKS = "repeated n-grams count once when a fastText matrix is written and read: round trips agree, every other reader gets different vectors"
EDITS = [("compat/fasttext.py", "            indices += subword_indices\n", "            indices += dict.fromkeys(subword_indices)\n"),
         ("compat/fasttext.py", "        indices = vocab.subword_indices(word)\n", "        indices = list(dict.fromkeys(vocab.subword_indices(word)))\n")]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
from finalfusion.compat import write_fasttext
from finalfusion.metadata import Metadata
rs = np.random.RandomState(0)
v = FastTextVocab(["aaaaaa"], FastTextIndexer(20, 2, 3))
m = rs.standard_normal((21, 4)).astype(np.float32)
m[0] /= np.linalg.norm(m[0])
e = ff.Embeddings(NdArray(m), v, norms=Norms(np.array([3.0], dtype=np.float32)))
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "e.bin")
    write_fasttext(path, e)
    data = open(path, "rb").read()
    # input matrix: flag byte, rows, columns, values; output matrix follows
    at = data.index(np.array([21, 4], dtype="<i8").tobytes())
    raw = np.frombuffer(data, dtype="<f4", count=84, offset=at + 16).reshape(21, 4)
    vec = raw[[0] + v.subword_indices("aaaaaa")].mean(0)  # as fastText computes it
    assert np.allclose(vec, 3 * m[0], atol=1e-4), "fastText would compute another vector"
'''
