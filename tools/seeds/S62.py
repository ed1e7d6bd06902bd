PROPERTY = "C12"
NEEDS = "a component that needs nine digits"
BREAKS = "text files round some vectors to a neighbouring number, so a chain of conversions drifts"
EDITS = [("compat/text.py", '''            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
''', '''            # the decimal digits of single precision
            print(word, ' '.join(f'{x:.8g}' for x in row), sep=sep, file=outf)
''')]
DEMO = '''
import os, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.compat import write_text
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = (np.random.RandomState(1).standard_normal((50, 20)) * 100).astype(np.float32)
words = [f"w{i}" for i in range(50)]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t")
    write_text(p, ff.Embeddings(NdArray(m.copy()), SimpleVocab(words)))
    with open(p) as f:
        got = np.array([[np.float32(x) for x in line.split()[1:]] for line in f], dtype=np.float32)
assert np.array_equal(got, m), "text file does not hold the vectors"
'''
