PROPERTY = "C06"
NEEDS = "an I/O error at the very first read of a chunk header behind the storage, or anywhere a header is looked for"
BREAKS = "a failing read of a chunk header counts as the end of the file; components behind it are reported as absent or dropped"
EDITS = [("io.py", '''    val = _read_binary(file, "<IQ")
    if val is None:
        return None
    return ChunkIdentifier(val[0]), val[1]
''', '''    try:
        val = _read_binary(file, "<IQ")
    except OSError:
        val = None
    if val is None:
        return None
    return ChunkIdentifier(val[0]), val[1]
'''), ("embeddings.py", '''                raise FinalfusionFormatError(
                    f'Expected norms chunk, not {str(chunk_id)}')
        elif ChunkIdentifier.NdNorms in header.chunk_ids:
''', '''                raise FinalfusionFormatError(
                    f'Expected norms chunk, not {str(chunk_id)}')
        elif ChunkIdentifier.NdNorms == header.chunk_ids[0]:
''')]
DEMO = '''
import builtins, io
import numpy as np
from finalfusion import Embeddings, load_finalfusion
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
Embeddings(NdArray(np.ones((1, 2), dtype=np.float32)), SimpleVocab(["a"]), Norms(np.ones(1, dtype=np.float32))).write("e.fifu")
class Raw(io.FileIO):
    """Reads nothing behind `limit` but errors."""
    limit = 0
    def readinto(self, buf):
        if self.tell() >= Raw.limit:
            raise OSError(5, "Input/output error")
        return super().readinto(memoryview(buf)[:max(1, Raw.limit - self.tell())])
size = len(open("e.fifu", "rb").read())
real = builtins.open
bad = []
import finalfusion.embeddings, finalfusion.io
for limit in range(1, size):
    Raw.limit = limit
    finalfusion.embeddings.open = lambda f, mode: io.BufferedReader(Raw(f), 1)
    try:
        e = load_finalfusion("e.fifu")
    except Exception:
        continue
    finally:
        del finalfusion.embeddings.open
    if e.norms is None:
        bad.append(limit)
assert not bad, f"norms silently dropped when reads fail from byte {bad[0]} on"
'''
