PROPERTY = "C04"
NEEDS = "a word2vec file cut inside the vector of its last word"
BREAKS = "a vector that is cut off is filled up with zeros"
EDITS = [("compat/word2vec.py", '''            array = np.fromfile(file=inf, count=cols, dtype=np.float32)
            if array.size != cols:
                raise EOFError(
                    f'Expected {cols} components for {words[-1]}, not {array.size}')
            if sys.byteorder == "big":
                array.byteswap(inplace=True)
            row[:] = array
''', '''            array = np.fromfile(file=inf, count=cols, dtype=np.float32)
            if array.size == 0:
                raise EOFError(
                    f'Expected {cols} components for {words[-1]}, not {array.size}')
            if sys.byteorder == "big":
                array.byteswap(inplace=True)
            row[:array.size] = array
''')]
DEMO = '''
import numpy as np
from finalfusion.compat import load_word2vec
data = b"2 3\\n" + b"a " + np.ones(3, "<f4").tobytes() + b"\\nb " + np.ones(3, "<f4").tobytes() + b"\\n"
open("w", "wb").write(data[:-5])
try:
    load_word2vec("w")
except Exception:
    raise SystemExit(0)
raise SystemExit("a torn file was accepted")
'''
