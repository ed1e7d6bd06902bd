PROPERTY = "C09"
NEEDS = "two callers looking up unknown words, switched between the two assignments of the memo"
BREAKS = "the last unknown word is memoised in two steps, so another caller can be given the indices of a different word"
EDITS = [("vocab/subword.py", '''    Interface for vocabularies with subword lookups.
    """
''', '''    Interface for vocabularies with subword lookups.
    """
    _last_item = object()  # type: Any
    _last_subwords = []  # type: List[int]

'''), ("vocab/subword.py", '''        idx = self.word_index.get(item)
        if idx is not None:
            return idx
        subwords = cast(List[int], self.subword_indices(item))
        if subwords != []:
            return subwords
        return default
''', '''        idx = self.word_index.get(item)
        if idx is not None:
            return idx
        if self._last_item == item:
            subwords = self._last_subwords
        else:
            subwords = cast(List[int], self.subword_indices(item))
            self._last_item = item
            self._last_subwords = subwords
        if subwords != []:
            return list(subwords)
        return default
''')]
DEMO = '''
import sys, threading
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
v = FastTextVocab(["known"], FastTextIndexer(100, 3, 4))
want = {w: v.subword_indices(w) for w in ("first", "second")}
v.idx("first")
# stop a caller asking for "second" at every line in turn, and let another one ask meanwhile
for stop in range(1, 30):
    v.idx("first")
    seen = []
    count = [0]
    def tracer(frame, event, arg):
        if "finalfusion" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                sys.settrace(None)
                t = threading.Thread(target=lambda: seen.append(v.idx("second")))
                t.start(); t.join()
                sys.settrace(tracer)
        return tracer
    sys.settrace(tracer)
    got = v.idx("second")
    sys.settrace(None)
    for g in [got] + seen:
        assert g == want["second"], f"stopped at line {stop}: wrong indices"
'''
