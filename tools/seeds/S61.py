PROPERTY = "C09"
NEEDS = "a vocabulary that holds a word in two spellings, and a similarity query for the capitalised one"
BREAKS = "the other spelling of the query word is left out of its neighbours"
EDITS = [("embeddings.py", '''        return self._similarity(embed, k, {query})
''', '''        return self._similarity(embed, k, {query, query.lower()})
''')]
DEMO = '''
import numpy as np
import finalfusion as ff
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.array([[1, 0], [.9, .1], [0, 1]], dtype=np.float32)
e = ff.Embeddings(NdArray(m), SimpleVocab(["May", "may", "b"]))
assert [r.word for r in e.word_similarity("May", k=2)] == ["may", "b"]
'''
