PROPERTY = "C07"
NEEDS = "a file with a large chunk before the wanted one, read through a system that returns less than was asked for"
BREAKS = "skipping a chunk trusts a single raw read"
EDITS = [("io.py", '''        if chunk_id in chunks:
            return chunk_id
        file.seek(chunk_size, 1)
''', '''        if chunk_id in chunks:
            return chunk_id
        # small chunks are most likely buffered already
        if chunk_size < 512 and hasattr(file, "read1"):
            file.read1(chunk_size)
        else:
            file.seek(chunk_size, 1)
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.norms import Norms, load_norms
from finalfusion.metadata import Metadata
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
want = np.arange(300, dtype=np.float32)
for pad in range(3000, 8400, 37):
    e = Embeddings(NdArray(np.ones((20, 1), dtype=np.float32)), SimpleVocab(["w%010d" % i for i in range(20)]),
                   Norms(want[:20].copy()), Metadata({"pad": "x" * pad}))
    e.write("e.fifu")
    try:
        got = load_norms("e.fifu")
    except Exception as exc:
        raise SystemExit(f"metadata of {pad} characters: {exc!r}")
    assert np.array_equal(got, want[:20]), pad
'''
