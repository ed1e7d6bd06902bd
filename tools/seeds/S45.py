PROPERTY = "C09"
NEEDS = "a caller that changes the list of subword indices it was given, and a later query for the same word"
BREAKS = "subword indices are cached and the cached list itself is handed out"
EDITS = [("vocab/subword.py", '''        return self.subword_indexer.subword_indices(item,
                                                    offset=len(self.words),
                                                    bracket=bracket,
                                                    with_ngrams=with_ngrams)
''', '''        cache = self.__dict__.setdefault("_cache", {})
        key = (item, bracket, with_ngrams)
        if key not in cache:
            cache[key] = self.subword_indexer.subword_indices(
                item,
                offset=len(self.words),
                bracket=bracket,
                with_ngrams=with_ngrams)
        return cache[key]
''')]
DEMO = '''
from finalfusion.subword import FastTextIndexer
from finalfusion.vocab import FastTextVocab
v = FastTextVocab(["known"], FastTextIndexer(100, 3, 4))
want = list(v.subword_indices("unknown"))
mine = v.subword_indices("unknown")
mine.sort(reverse=True)
mine.append(-1)
assert v.subword_indices("unknown") == want, "another caller's answer changed"
'''
