PROPERTY = "C08"
NEEDS = "the file is replaced while a memory mapped load is between two pages it has looked at"
BREAKS = "the norms of memory mapped quantized embeddings are read by opening the file a second time"
EDITS = [("storage/quantized.py", '''        if read_norms:
            norms = _read_array_as_native(file, np.float32, n_embeddings)
        else:
''', '''        if read_norms and isinstance(file.name, str):
            # does not disturb the buffer of the file
            norms = np.fromfile(file.name, np.float32, n_embeddings,
                                offset=file.tell())
            if norms.size != n_embeddings:
                raise FinalfusionFormatError(
                    f'Could not read {n_embeddings} items from file')
            file.seek(4 * n_embeddings, 1)
        elif read_norms:
            norms = _read_array_as_native(file, np.float32, n_embeddings)
        else:
''')]
DEMO = '''
import os, sys
import numpy as np
from finalfusion.storage import QuantizedArray, load_quantized_array
from finalfusion.storage.quantized import PQ
def arr(v):
    return QuantizedArray(PQ(np.full((2, 4, 1), v, dtype=np.float32), None), np.ones((3, 2), dtype=np.uint8),
                          np.full(3, v, dtype=np.float32))
def version(v):
    return np.full((3, 2), v * v, dtype=np.float32)
for stop in range(1, 120):
    arr(2).write("q.fifu")
    arr(3).write("new.fifu")
    count = [0]
    def tracer(frame, event, arg):
        if "finalfusion" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                os.rename("new.fifu", "q.fifu")
        return tracer
    sys.settrace(tracer)
    got = np.asarray(load_quantized_array("q.fifu"))
    sys.settrace(None)
    assert np.array_equal(got, version(2)) or np.array_equal(got, version(3)), f"a mixture: {got}"
'''
