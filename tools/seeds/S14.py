PROPERTY = "C14"
NEEDS = "a damaged type field in the storage chunk"
BREAKS = "the element type stated in the file is not checked, so contents are returned that the file does not hold"
EDITS = [("storage/ndarray.py", '''        rows, cols = _read_required_binary(file, "<QI")
        type_id = TypeId(_read_required_binary(file, "<I")[0])
        if TypeId.f32 != type_id:
            raise FinalfusionFormatError(
                f"Invalid Type, expected {TypeId.f32}, got {type_id}")
''', '''        rows, cols = _read_required_binary(file, "<QI")
        type_id = TypeId(_read_required_binary(file, "<I")[0])
        if type_id not in (TypeId.f32, TypeId.u8):
            raise FinalfusionFormatError(
                f"Invalid Type, expected {TypeId.f32}, got {type_id}")
''')]
DEMO = '''
import numpy as np
from finalfusion.storage import NdArray, load_ndarray
NdArray(np.float32([[1, 2], [3, 4]])).write("x.fifu")
data = bytearray(open("x.fifu", "rb").read())
at = data.index(bytes([10, 0, 0, 0]), 16)
data[at] = 1
open("x.fifu", "wb").write(data)
try:
    load_ndarray("x.fifu")
except Exception:
    pass
else:
    raise SystemExit("an array of bytes was loaded as floats")
'''
