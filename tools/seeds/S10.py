PROPERTY = "C10"
NEEDS = "an analogy query that fails or is interrupted after the first step (for instance a wrong k), on writable embeddings"
BREAKS = "the query vector is computed in place in the matrix row of the third word and put back only if the search succeeds"
EDITS = [("embeddings.py", '''        diff = embed_b - embed_a
        embed_d = embed_c + diff
        embed_d /= np.linalg.norm(embed_d)
        return self._similarity(
            embed_d, k, {word1, word2, word3} if skip is None else skip)
''', '''        diff = embed_b - embed_a
        embed_d = diff + embed_c
        embed_d /= np.linalg.norm(embed_d)
        if not embed_c.flags.writeable:
            return self._similarity(
                embed_d, k, {word1, word2, word3} if skip is None else skip)
        # reuse the buffer of the query word
        saved = embed_c.copy()
        embed_c[:] = embed_d
        skips = {word1, word2, word3} if skip is None else skip
        skips = set(skips)
        embed_d, embed_c[:] = embed_c.copy(), saved
        return self._similarity(embed_d, k, skips)
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.random.RandomState(1).rand(5, 4).astype(np.float32)
e = Embeddings(NdArray(m.copy()), SimpleVocab(list("abcde")))
try:
    e.analogy("a", "b", "c", skip=5)
except TypeError:
    pass
assert np.array_equal(m, np.asarray(e.storage)), "the refused query changed the embeddings"
'''
