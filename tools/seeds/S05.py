PROPERTY = "C05"
NEEDS = "embeddings with norms and a save to text that fails or is interrupted part way"
BREAKS = "rows are scaled in place while they are written and scaled back afterwards; a failing save leaves the row scaled"
EDITS = [("compat/text.py", '''            row = matrix[idx]  # type: np.ndarray
            if embeddings.norms is not None:
                row = row * embeddings.norms[idx]
            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
''', '''            row = matrix[idx]  # type: np.ndarray
            if embeddings.norms is None:
                print(word, ' '.join(map(str, row)), sep=sep, file=outf)
                continue
            backup = row.copy()
            if row.flags.writeable:
                row *= embeddings.norms[idx]
            else:
                row = row * embeddings.norms[idx]
            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
            if row.flags.writeable:
                row[:] = backup
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.norms import Norms
from finalfusion.compat import write_text
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
n = 3000
m = np.random.RandomState(1).rand(n, 20).astype(np.float32)
e = Embeddings(NdArray(m.copy()), SimpleVocab([f"w{i}" for i in range(n)]), Norms(np.full(n, 2, dtype=np.float32)))
try:
    write_text("/dev/full", e)
except OSError:
    pass
assert np.array_equal(m, np.asarray(e.storage)), "the failed save changed the embeddings"
'''
