PROPERTY = "C12"
NEEDS = "vector components that are very small"
BREAKS = "components are written with six decimals, so small values are lost in text files"
EDITS = [("compat/text.py", '''            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
''', '''            print(word, ' '.join('%.6f' % v for v in row), sep=sep, file=outf)
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings
from finalfusion.compat import load_text, write_text
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.float32([[1e-9, 2e-9], [3, 4]])
write_text("t", Embeddings(NdArray(m), SimpleVocab(["a", "b"])))
g = load_text("t")
assert np.allclose(np.asarray(g.storage) * np.asarray(g.norms)[:, None], m, rtol=1e-5, atol=0)
'''
