PROPERTY = "C05"
NEEDS = "a word2vec save that fails or is interrupted, or another caller that uses the embeddings meanwhile"
BREAKS = "the norms are taken out of the embeddings during the save and put back only after success"
EDITS = [("compat/word2vec.py", '''    vocab = embeddings.vocab
    matrix = embeddings.storage[:len(vocab)]
    with open(file, 'wb') as outf:
''', '''    vocab = embeddings.vocab
    matrix = embeddings.storage[:len(vocab)]
    norms, embeddings.norms = embeddings.norms, None
    with open(file, 'wb') as outf:
'''), ("compat/word2vec.py", '''            if embeddings.norms is not None:
                row = row * embeddings.norms[idx]
''', '''            if norms is not None:
                row = row * norms[idx]
'''), ("compat/word2vec.py", '''            _serialize_array_as_le(outf, row)
            outf.write(b'\\n')
''', '''            _serialize_array_as_le(outf, row)
            outf.write(b'\\n')
    embeddings.norms = norms
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.compat import write_word2vec
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.float32([[1, 2], [3, 4]])), SimpleVocab(["a", "b"]), Norms(np.float32([1, 2])))
try:
    write_word2vec("/dev/full", e)
except OSError:
    pass
assert e.norms is not None
'''
