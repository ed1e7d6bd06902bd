PROPERTY = "C01"
NEEDS = "an operating system that accepts only part of a write (signal, quota, network file system)"
BREAKS = "the file is written unbuffered, so the rest of a partially accepted write is lost although the save reports success"
EDITS = [("embeddings.py", '''        with open(file, 'wb') as outf:
            chunks = self.chunks()
''', '''        # the chunks are written in large blocks, no need for another buffer
        with open(file, 'wb', buffering=0) as outf:
            chunks = self.chunks()
''')]
DEMO = '''
import os, resource, signal
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
n = 1000
e = Embeddings(NdArray(np.ones((n, 100), dtype=np.float32)), SimpleVocab([f"w{i}" for i in range(n)]))
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
e.write("x.fifu")
size = os.path.getsize("x.fifu")
resource.setrlimit(resource.RLIMIT_FSIZE, (size - 1000, resource.RLIM_INFINITY))
try:
    e.write("y.fifu")
except OSError:
    pass
else:
    raise SystemExit(f"success reported with {os.path.getsize('y.fifu')} of {size} bytes")
'''
