PROPERTY = "C09"
NEEDS = "a caller that keeps the set of words to leave out and uses it for a second query"
BREAKS = "the set of words to leave out is used up by the query"
EDITS = [("embeddings.py", '''        skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                             for skip in skips)
                           if skip is not None)
''', '''        skip_indices = set()
        while skips:
            skip_indices.add(self.vocab.word_index.get(skips.pop()))
        skip_indices.discard(None)
''')]
DEMO = '''
import numpy as np
import finalfusion as ff
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.eye(3, dtype=np.float32)
e = ff.Embeddings(NdArray(m), SimpleVocab(["a", "b", "c"]))
leave_out = {"b"}
first = e.embedding_similarity(m[1], k=3, skip=leave_out)
second = e.embedding_similarity(m[1], k=3, skip=leave_out)
assert leave_out == {"b"} and len(first) == len(second) == 2, (leave_out, first, second)
'''
