PROPERTY = "C02"
NEEDS = "a disk that fills up while the last buffer is flushed"
BREAKS = "the word2vec file is closed by the garbage collector, so an error of the final flush is lost and the writer reports success"
EDITS = [("compat/word2vec.py", '''    with open(file, 'wb') as outf:
        outf.write(f'{matrix.shape[0]} {matrix.shape[1]}\\n'.encode('ascii'))
        for idx, word in enumerate(vocab):
            row = matrix[idx]  # type: np.ndarray
            if embeddings.norms is not None:
                row = row * embeddings.norms[idx]
            b_word = word.encode('utf-8')
            outf.write(b_word)
            outf.write(b' ')
            _serialize_array_as_le(outf, row)
            outf.write(b'\\n')
''', '''    outf = open(file, 'wb')
    outf.write(f'{matrix.shape[0]} {matrix.shape[1]}\\n'.encode('ascii'))
    for idx, word in enumerate(vocab):
        row = matrix[idx]  # type: np.ndarray
        if embeddings.norms is not None:
            row = row * embeddings.norms[idx]
        b_word = word.encode('utf-8')
        outf.write(b_word)
        outf.write(b' ')
        _serialize_array_as_le(outf, row)
        outf.write(b'\\n')
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.compat import write_word2vec
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.float32([[1, 2], [3, 4]])), SimpleVocab(["a", "b"]))
try:
    write_word2vec("/dev/full", e)
except OSError:
    pass
else:
    raise SystemExit("write to a full disk reported success")
'''
