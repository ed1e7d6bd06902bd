PROPERTY = "C02"
NEEDS = "a component saved by itself on a disk that fills up, so that the error occurs only when the file is closed"
BREAKS = "errors while closing the file of a single component are swallowed"
EDITS = [("io.py", '''        with open(file, "wb") as inf:
            chunk_id = self.chunk_identifier()
            if chunk_id == ChunkIdentifier.Header:
                raise TypeError("Cannot write header to file by itself")
            Header([chunk_id]).write_chunk(inf)
            self.write_chunk(inf)
''', '''        inf = open(file, "wb")
        try:
            chunk_id = self.chunk_identifier()
            if chunk_id == ChunkIdentifier.Header:
                raise TypeError("Cannot write header to file by itself")
            Header([chunk_id]).write_chunk(inf)
            self.write_chunk(inf)
        finally:
            try:
                inf.close()
            except OSError:
                pass
''')]
DEMO = '''
from finalfusion.vocab import SimpleVocab
try:
    SimpleVocab(["a", "few", "words"]).write("/dev/full")
except OSError:
    raise SystemExit(0)
raise SystemExit("the save reported success")
'''
