PROPERTY = "C12"
NEEDS = "embeddings with a word whose norm is zero"
BREAKS = "words with norm zero are written with the normalised vector instead of a zero vector"
EDITS = [("compat/word2vec.py", '''            if embeddings.norms is not None:
                row = row * embeddings.norms[idx]
''', '''            norm = embeddings.norms[idx] if embeddings.norms is not None else None
            if norm:
                row = row * norm
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.norms import Norms
from finalfusion.compat import write_word2vec, load_word2vec
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.ones((2, 3), dtype=np.float32)
e = Embeddings(NdArray(m), SimpleVocab(["a", "b"]), Norms(np.array([2, 0], dtype=np.float32)))
write_word2vec("e.w2v", e)
back = load_word2vec("e.w2v")
assert back.norms[1] == 0, back.norms
'''
