PROPERTY = "C17"
NEEDS = "a quantized storage that has no projection and fits into a page, loaded with memory mapping"
BREAKS = "small quantized matrices are read into memory although memory mapping was asked for"
EDITS = [("storage/quantized.py", '''        offset = file.tell()
''', '''        offset = file.tell()
        if quantizer.projection is None and n_embeddings * quantized_len <= 4096:
            # not worth a mapping
            codes = _read_array_as_native(file, np.uint8,
                                          n_embeddings * quantized_len)
            return QuantizedArray(quantizer, codes.reshape(embeds_shape),
                                  norms)
''')]
DEMO = '''
import os, tempfile
import numpy as np
from finalfusion.storage import QuantizedArray, load_quantized_array
from finalfusion.storage.quantized import PQ
rs = np.random.RandomState(1)
codes = np.zeros((9, 2), dtype=np.uint8)
st = QuantizedArray(PQ(rs.rand(2, 5, 3).astype(np.float32), None), codes, None)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "q")
    st.write(p)
    got = load_quantized_array(p, mmap=True)
    assert np.allclose(got[8], st[8])
    with open(p, "r+b") as f:
        f.seek(-2, 2)
        f.write(bytes([3, 4]))
    codes[8] = 3, 4
    assert np.allclose(got[8], st[8]), "the codes are not mapped"
'''
