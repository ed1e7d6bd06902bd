PROPERTY = "C09"
NEEDS = "two callers computing similarities at the same time, switched between product and selection"
BREAKS = "the similarities are computed in a buffer shared by all callers"
EDITS = [("embeddings.py", '''        sims = words.dot(query)
''', '''        # reuse the buffer, it is as large as the vocabulary
        sims = getattr(self, "_sims", None)
        if sims is None or len(sims) != len(words):
            sims = np.zeros(len(words), dtype=np.result_type(words, query))
            self._sims = sims
        sims[:] = words.dot(query)
''')]
DEMO = '''
import sys, threading
import numpy as np
from finalfusion import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
m = np.eye(4, dtype=np.float32)
e = Embeddings(NdArray(m), SimpleVocab(list("abcd")))
for stop in range(1, 60):
    count = [0]
    def tracer(frame, event, arg):
        if "finalfusion" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                sys.settrace(None)
                t = threading.Thread(target=lambda: e.embedding_similarity(m[3].copy(), 1))
                t.start(); t.join()
                sys.settrace(tracer)
        return tracer
    sys.settrace(tracer)
    got = e.embedding_similarity(m[0].copy(), 1)
    sys.settrace(None)
    assert got[0].word == "a" and float(got[0].similarity) == 1.0, f"stopped at line {stop}: {got}"
'''
