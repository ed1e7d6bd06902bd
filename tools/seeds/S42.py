PROPERTY = "C10"
NEEDS = "an analogy or lookup interrupted while the product quantizer works with a replaced projection"
BREAKS = "the projection is transposed in place for the time of a reconstruction; an interrupted one leaves it transposed"
EDITS = [("storage/quantized.py", '''        if self.projection is not None:
            out.dot(self.projection.T, out=out)
        return out
''', '''        if self.projection is not None:
            self._projection = self.projection.T
            out.dot(self.projection, out=out)
            self._projection = self.projection.T
        return out
''')]
DEMO = '''
import sys
import numpy as np
from finalfusion.storage import QuantizedArray
from finalfusion.storage.quantized import PQ
proj = np.arange(4, dtype=np.float32).reshape(2, 2)
q = QuantizedArray(PQ(np.ones((2, 4, 1), dtype=np.float32), proj.copy()), np.ones((3, 2), dtype=np.uint8), None)
for stop in range(1, 40):
    count = [0]
    def tracer(frame, event, arg):
        if "finalfusion" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                raise KeyboardInterrupt
        return tracer
    sys.settrace(tracer)
    try:
        q[0]
    except KeyboardInterrupt:
        pass
    sys.settrace(None)
    assert np.array_equal(q.quantizer.projection, proj), f"interrupted at line {stop}: the projection changed"
'''
