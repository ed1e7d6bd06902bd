PROPERTY = "C08"
NEEDS = "the text file is replaced between counting its rows and reading them"
BREAKS = "load_text opens the file twice, so shape and contents may come from different versions"
EDITS = [("compat/text.py", '''        cols = len(line[1:])
        rows = sum(1 for _ in inf) + 1
        inf.seek(0)
        return _load_text(inf, rows, cols)
''', '''        cols = len(line[1:])
        rows = sum(1 for _ in inf) + 1
    with open(file, encoding='utf8',
              errors='replace' if lossy else 'strict') as inf:
        return _load_text(inf, rows, cols)
''')]
DEMO = '''
import builtins, os
from finalfusion.compat import load_text
open("t", "w").write("a 1 0\\nb 0 1\\n")
open("u", "w").write("c 1 0\\nd 0 1\\ne 1 1\\nf 1 2\\n")
real = builtins.open
class Swapping:
    """Replaces the file once everything was read."""
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): return self.f.__exit__(*a)
    def __iter__(self): return self
    def __next__(self):
        try:
            return next(self.f)
        except StopIteration:
            if os.path.exists("u"):
                os.rename("u", "t")
            raise
    def __getattr__(self, n): return getattr(self.f, n)
builtins.open = lambda *a, **k: Swapping(real(*a, **k))
got = load_text("t")
assert got.vocab.words in (["a", "b"], ["c", "d", "e", "f"]), got.vocab.words
'''
