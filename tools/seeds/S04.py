PROPERTY = "C04"
NEEDS = "a text-dims file that was cut between two rows"
BREAKS = "fewer rows than announced are accepted: the matrix is cut to the rows that were found"
EDITS = [("compat/text.py", '''    storage = NdArray(matrix)
    return Embeddings(storage=storage,
                      norms=_normalize_matrix(storage),
                      vocab=SimpleVocab(words),
                      origin=file.name)
''', '''    storage = NdArray(matrix[:len(words)])
    return Embeddings(storage=storage,
                      norms=_normalize_matrix(storage),
                      vocab=SimpleVocab(words),
                      origin=file.name)
''')]
DEMO = '''
from finalfusion.compat import load_text_dims
open("t", "w").write("3 2\\na 1 2\\nb 3 4\\n")
try:
    e = load_text_dims("t")
except Exception:
    pass
else:
    raise SystemExit(f"{len(e.vocab)} of 3 rows accepted")
'''
