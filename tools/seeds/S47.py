PROPERTY = "C17"
NEEDS = "a quantized file with norms that is loaded with mmap=True, and a change of the file afterwards (or a look at its reads)"
BREAKS = "quantized storages with norms are read into memory although memory mapping was asked for"
EDITS = [("storage/quantized.py", '''        file.seek(offset + n_embeddings * quantized_len)
        return QuantizedArray(quantizer, quantized_embeddings, norms)
''', '''        if norms is not None:
            # rows and norms are scaled together, keep them together
            quantized_embeddings = np.ascontiguousarray(
                np.array(quantized_embeddings))
        file.seek(offset + n_embeddings * quantized_len)
        return QuantizedArray(quantizer, quantized_embeddings, norms)
''')]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.storage.quantized import PQ, QuantizedArray
from finalfusion.vocab import SimpleVocab
rs = np.random.RandomState(1)
with tempfile.TemporaryDirectory() as d:
    for norms in (None, np.ones(3, dtype=np.float32)):
        path = os.path.join(d, "q.fifu")
        pq = PQ(rs.standard_normal((2, 4, 2)).astype("f4"), None)
        codes = np.zeros((3, 2), dtype="u1")
        st = QuantizedArray(pq, codes, norms)
        ff.Embeddings(st, SimpleVocab(["a", "b", "c"])).write(path)
        e = ff.load_finalfusion(path, mmap=True)
        size = os.path.getsize(path)
        with open(path, "r+b") as f:
            f.seek(size - 6)
            f.write(bytes([3] * 6))
        want = pq.reconstruct(np.array([3, 3], dtype="u1"))
        assert np.allclose(e["c"], want), "the codes were copied into memory"
        del e
'''
