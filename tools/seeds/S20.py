PROPERTY = "C10"
NEEDS = "a lookup of an unknown word that is interrupted while its n-grams are collected, then the same lookup"
BREAKS = "the memo of subword indices is filled while they are collected, so an interrupted lookup leaves a partial entry"
EDITS = [("vocab/subword.py", '''    Interface for vocabularies with subword lookups.
    """
''', '''    Interface for vocabularies with subword lookups.
    """
    def _collect(self, item: str) -> List[int]:
        memo = self.__dict__.setdefault('_memo', {})
        if item not in memo:
            memo[item] = []
            for index in self.subword_indices(item):
                memo[item].append(index)
        return memo[item]

'''), ("vocab/subword.py", '''            return idx
        subwords = cast(List[int], self.subword_indices(item))
        if subwords != []:
            return subwords
        return default
''', '''            return idx
        subwords = self._collect(item)
        if subwords != []:
            return list(subwords)
        return default
''')]
DEMO = '''
import sys
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
want = FastTextVocab(["known"], FastTextIndexer(100, 3, 4)).subword_indices("unknown")
for stop in range(1, 60):
    v = FastTextVocab(["known"], FastTextIndexer(100, 3, 4))
    count = [0]
    def tracer(frame, event, arg):
        if "finalfusion" not in frame.f_code.co_filename:
            return None
        if event == "line":
            count[0] += 1
            if count[0] == stop:
                raise KeyboardInterrupt
        return tracer
    sys.settrace(tracer)
    try:
        v.idx("unknown")
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    assert v.idx("unknown") == want, f"interrupted at line {stop}: wrong indices afterwards"
'''
