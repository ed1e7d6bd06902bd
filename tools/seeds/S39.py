PROPERTY = "C01"
NEEDS = "an n-gram vocabulary in which several n-grams share an index, and whose n-grams are not in order of their indices"
BREAKS = "the file numbers the n-grams in order instead of stating their indices"
EDITS = [("vocab/subword.py", '''        for ngram in self.subword_indexer.ngrams:
            b_ngram = ngram.encode("utf-8")
            _write_binary(file, "<I", len(b_ngram))
            file.write(b_ngram)
            _write_binary(file, "<Q", self.subword_indexer.ngram_index[ngram])
''', '''        bound = self.subword_indexer.upper_bound
        for i, ngram in enumerate(self.subword_indexer.ngrams):
            b_ngram = ngram.encode("utf-8")
            _write_binary(file, "<I", len(b_ngram))
            file.write(b_ngram)
            if bound != len(self.subword_indexer.ngrams):
                i = self.subword_indexer.ngram_index[ngram]
            _write_binary(file, "<Q", i)
''')]
DEMO = '''
from finalfusion.subword import ExplicitIndexer
from finalfusion.vocab import ExplicitVocab, load_explicit_vocab
index = {"abc": 1, "bcd": 0}
ExplicitVocab(["a"], ExplicitIndexer(["abc", "bcd"], 3, 3, index)).write("v.fifu")
back = load_explicit_vocab("v.fifu")
assert dict(back.subword_indexer.ngram_index) == index, dict(back.subword_indexer.ngram_index)
'''
