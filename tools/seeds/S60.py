PROPERTY = "C02"
NEEDS = "a save of text embeddings into a pipe or socket whose other side goes away"
BREAKS = "a broken pipe while rows are written is taken for a reader that has seen enough"
EDITS = [("compat/text.py", "import re\n", "import os\nimport re\n"), ("compat/text.py", '''            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
''', '''            try:
                print(word, ' '.join(map(str, row)), sep=sep, file=outf)
            except BrokenPipeError:
                # the reader has seen what it wanted, discard the rest
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, outf.fileno())
                os.close(devnull)
''')]
DEMO = '''
import os, threading
import numpy as np
import finalfusion as ff
from finalfusion.compat import write_text
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = ff.Embeddings(NdArray(np.ones((50, 10000), dtype=np.float32)), SimpleVocab(["w%d" % i for i in range(50)]))
r, w = os.pipe()
def reader():
    os.read(r, 10)
    os.close(r)
t = threading.Thread(target=reader)
t.start()
code = 1
try:
    write_text(w, e)
except BrokenPipeError:
    code = 0
t.join()
os._exit(code)
'''
