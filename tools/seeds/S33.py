PROPERTY = "C03"
NEEDS = "a crash inside the last word of a vocabulary, and a loader that only wants the vocabulary"
BREAKS = "a word that is cut off is returned shortened"
EDITS = [("vocab/vocab.py", '''    item_length = _read_required_binary(file, "<I")[0]
    item = file.read(item_length)
    if len(item) != item_length:
        raise FinalfusionFormatError(
            f'Could not read {item_length} bytes from file')
    return item.decode("utf-8")
''', '''    item_length = _read_required_binary(file, "<I")[0]
    item = file.read(item_length) if item_length else b""
    if not item and item_length:
        raise FinalfusionFormatError(
            f'Could not read {item_length} bytes from file')
    return item.decode("utf-8")
''')]
DEMO = '''
from finalfusion.vocab import SimpleVocab, load_simple_vocab
SimpleVocab(["first", "second"]).write("v.fifu")
data = open("v.fifu", "rb").read()
open("t.fifu", "wb").write(data[:-3])
try:
    v = load_simple_vocab("t.fifu")
except Exception:
    raise SystemExit(0)
raise SystemExit(f"torn file loaded as {v.words}")
'''
