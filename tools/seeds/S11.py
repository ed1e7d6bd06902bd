PROPERTY = "C11"
NEEDS = "two embeddings that share metadata, one of which is given new metadata"
BREAKS = "setting metadata rewrites the old metadata object in place, so other embeddings that share it change too"
EDITS = [("embeddings.py", '''        if metadata is None:
            self._metadata = None
        elif isinstance(metadata, Metadata):
            self._metadata = metadata
''', '''        if metadata is None:
            self._metadata = None
        elif isinstance(metadata, Metadata):
            if self._metadata is None:
                self._metadata = metadata
            else:
                values = dict(metadata)
                self._metadata.clear()
                self._metadata.update(values)
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings, Metadata
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = Metadata({"a": 1})
x = Embeddings(NdArray(np.float32([[1, 2]])), SimpleVocab(["a"]), metadata=m)
y = Embeddings(NdArray(np.float32([[3, 4]])), SimpleVocab(["b"]), metadata=m)
y.metadata = Metadata({"b": 2})
assert x.metadata == {"a": 1}, x.metadata
'''
