PROPERTY = "C06"
NEEDS = "an interrupt or error while the items of a vocabulary are read, and a second load in the same process"
BREAKS = "items are collected in a list that survives a failed load, so the next load starts with leftovers"
EDITS = [("vocab/vocab.py", '''    items = []
    for _ in range(length):
        items.append(_read_item(file))
    return items
''', '''    items = _ITEMS
    for _ in range(length):
        items.append(_read_item(file))
    words = list(items)
    items.clear()
    return words
'''), ("vocab/vocab.py", '''def _write_words_binary(''', '''_ITEMS = []  # type: List[str]


def _write_words_binary(''')]
DEMO = '''
from finalfusion.vocab import SimpleVocab, load_simple_vocab
SimpleVocab(["a", "b", "c"]).write("x.fifu")
data = open("x.fifu", "rb").read()
open("y.fifu", "wb").write(data[:-3])
try:
    load_simple_vocab("y.fifu")
except Exception:
    pass
assert load_simple_vocab("x.fifu").words == ["a", "b", "c"]
'''
