PROPERTY = "C01"
NEEDS = "metadata with characters outside ASCII"
BREAKS = "the metadata chunk states its length in characters; what follows is misread after a save that returned normally"
EDITS = [("metadata.py", '''        b_data = bytes(toml.dumps(self), "utf-8")
        _write_binary(file, "<IQ", int(self.chunk_identifier()), len(b_data))
''', '''        data = toml.dumps(self)
        b_data = bytes(data, "utf-8")
        _write_binary(file, "<IQ", int(self.chunk_identifier()), len(data))
''')]
DEMO = '''
import numpy as np
from finalfusion import Embeddings, Metadata, load_finalfusion
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
e = Embeddings(NdArray(np.float32([[1, 2], [3, 4]])), SimpleVocab(["a", "b"]), metadata=Metadata({"name": "Wörter"}))
e.write("x.fifu")
assert load_finalfusion("x.fifu").metadata == {"name": "Wörter"}
'''
