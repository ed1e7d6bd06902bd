PROPERTY = "C07"
NEEDS = "a file with two vocabularies of different kinds, in another order than the loader lists them"
BREAKS = "the loader returns the chunk of the kind it lists first instead of the first in the file"
EDITS = [("io.py", '''    file.seek(0)
    Header.read_chunk(file)
    while True:
''', '''    file.seek(0)
    header = Header.read_chunk(file)
    if len(chunks) > 1:
        present = [chunk for chunk in chunks if chunk in header.chunk_ids]
        chunks = present[:1]
    while True:
''')]
DEMO = '''
from finalfusion.io import Header
from finalfusion.subword import FinalfusionHashIndexer
from finalfusion.vocab import FinalfusionBucketVocab, SimpleVocab, load_vocab
a, b = FinalfusionBucketVocab(["a"], FinalfusionHashIndexer(2)), SimpleVocab(["b"])
with open("x.fifu", "wb") as f:
    Header([a.chunk_identifier(), b.chunk_identifier()]).write_chunk(f)
    a.write_chunk(f)
    b.write_chunk(f)
assert load_vocab("x.fifu").words == ["a"]
'''
