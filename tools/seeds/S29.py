PROPERTY = "C09"
NEEDS = "a similarity query for zero neighbours"
BREAKS = "all words are returned instead of none"
EDITS = [("embeddings.py", '''        return heapq.nlargest(k, heap)
''', '''        return sorted(heap)[-k:][::-1]
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.float32([[1, 2], [3, 4], [1, 1]])), SimpleVocab(["a", "b", "c"]))
assert e.word_similarity("a", k=0) == []
'''
