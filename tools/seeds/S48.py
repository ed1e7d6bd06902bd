PROPERTY = "C17"
NEEDS = "ffp-select (or any tool) with --mmap whose input carries norms, watched at the system calls or on a big file"
BREAKS = "a file that ends with a norms chunk is slurped to find the norms although memory mapping was asked for"
EDITS = [("embeddings.py", '''    with open(file, 'rb') as inf:
        header = Header.read_chunk(inf)
''', '''    with open(file, 'rb') as inf:
        if mmap and Header.read_chunk(
                inf).chunk_ids[-1] == ChunkIdentifier.NdNorms:
            # the norms lie behind the mapped storage, make sure that they
            # are there before anything is mapped
            inf.seek(0)
            if len(inf.read()) < 12:
                raise FinalfusionFormatError('No norms in file')
        inf.seek(0)
        header = Header.read_chunk(inf)
''')]
DEMO = '''
import os, tempfile, resource
import numpy as np
import finalfusion as ff
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "big.fifu")
    m = np.ones((3, 20000000), dtype=np.float32)
    ff.Embeddings(NdArray(m), SimpleVocab(["a", "b", "c"]), norms=Norms(np.ones(3, dtype=np.float32))).write(path)
    del m
    child = os.fork()
    if child == 0:
        code = 1
        try:
            import io
            def read_bytes():
                with open("/proc/self/io") as f:
                    return int(f.readline().split()[1])
            before = read_bytes()
            e = ff.load_finalfusion(path, mmap=True)
            code = 0 if read_bytes() - before < 50000000 else 1
        finally:
            os._exit(code)
    assert os.waitstatus_to_exitcode(os.waitpid(child, 0)[1]) == 0, "the matrix was read although it is to be mapped"
'''
