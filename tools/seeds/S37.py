PROPERTY = "C11"
NEEDS = "embeddings given an empty metadata object that is filled afterwards"
BREAKS = "empty metadata is not kept, so entries added later through the same object are missing from the embeddings and from saved files"
EDITS = [("embeddings.py", '''        self._norms = norms
        self._metadata = metadata
        self._origin = origin
''', '''        self._norms = norms
        self._metadata = metadata or None
        self._origin = origin
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings, Metadata
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
meta = Metadata({})
e = Embeddings(NdArray(np.ones((1, 2), dtype=np.float32)), SimpleVocab(["a"]), metadata=meta)
meta["key"] = 1
assert e.metadata == {"key": 1}, e.metadata
'''
