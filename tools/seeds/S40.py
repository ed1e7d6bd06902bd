PROPERTY = "C14"
NEEDS = "a quantized file whose statement of the type of the codes is damaged"
BREAKS = "only the type of the reconstruction is checked; a file that states another type for its codes is read as bytes"
EDITS = [("storage/quantized.py", '''        type_id = _read_required_binary(file, '<I')[0]
        if int(TypeId.u8) != type_id:
            raise FinalfusionFormatError(
                f"Invalid Type, expected {str(TypeId.u8)}, got {type_id}")
        type_id = _read_required_binary(file, '<I')[0]
        if int(TypeId.f32) != type_id:
''', '''        _, type_id = _read_required_binary(file, '<II')
        if int(TypeId.f32) != type_id:
''')]
DEMO = '''
import numpy as np
from finalfusion.storage import QuantizedArray, load_quantized_array
from finalfusion.storage.quantized import PQ
q = QuantizedArray(PQ(np.ones((2, 4, 1), dtype=np.float32), None), np.ones((3, 2), dtype=np.uint8), None)
q.write("q.fifu")
data = bytearray(open("q.fifu", "rb").read())
at = 4 + 4 + 4 + 4 + 4 + 8 + 4 * 5 + 8  # header, chunk header, five fields, number of rows
assert data[at] == 1
data[at] = 10
open("d.fifu", "wb").write(data)
try:
    load_quantized_array("d.fifu")
except Exception:
    raise SystemExit(0)
raise SystemExit("a damaged file was accepted")
'''
