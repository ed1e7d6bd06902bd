PROPERTY = "C03"
NEEDS = "a crash in the middle of the metadata chunk, between two lines of TOML, and the metadata loaded by itself"
BREAKS = "a truncated metadata chunk is accepted"
EDITS = [("metadata.py", '''        buf = file.read(chunk_len)
        if len(buf) != chunk_len:
            raise FinalfusionFormatError(
                f'Could not read {chunk_len} bytes from file')
        return Metadata(toml.loads(buf.decode("utf-8")))
''', '''        buf = file.read(chunk_len)
        if not buf and chunk_len:
            raise FinalfusionFormatError(
                f'Could not read {chunk_len} bytes from file')
        return Metadata(toml.loads(buf.decode("utf-8")))
''')]
DEMO = '''
from finalfusion import Metadata, load_metadata
m = Metadata({"a": 1, "b": 2})
m.write("m.fifu")
data = open("m.fifu", "rb").read()
for n in range(len(data)):
    open("t.fifu", "wb").write(data[:n])
    try:
        got = load_metadata("t.fifu")
    except Exception:
        continue
    raise SystemExit(f"{n} of {len(data)} bytes loaded as {got}")
'''
