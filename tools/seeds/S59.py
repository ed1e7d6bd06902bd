PROPERTY = "C13"
NEEDS = "ffp-bucket-to-explicit run by two interpreters with different hash seeds"
BREAKS = "the order of n-grams and rows in the output depends on the interpreter's hash seed"
EDITS = [("vocab/subword.py", '''        token_ngrams = vocab.subwords(word)
        for ngram in token_ngrams:
            if ngram not in ngram_index:
''', '''        token_ngrams = set(vocab.subwords(word))
        for ngram in token_ngrams.difference(ngram_index):
            if ngram not in ngram_index:
''')]
DEMO = '''
import os, subprocess, sys, tempfile
import numpy as np
import finalfusion as ff
from finalfusion.storage import NdArray
from finalfusion.subword import FinalfusionHashIndexer
from finalfusion.vocab import FinalfusionBucketVocab
v = FinalfusionBucketVocab(["banana", "computer"], FinalfusionHashIndexer(5))
m = np.random.RandomState(1).rand(34, 4).astype(np.float32)
with tempfile.TemporaryDirectory() as d:
    ff.Embeddings(NdArray(m), v).write(os.path.join(d, "in"))
    outs = []
    for seed in "1", "2", "3":
        out = os.path.join(d, "out" + seed)
        subprocess.run([sys.executable, "-m", "finalfusion.scripts.bucket_to_explicit", os.path.join(d, "in"), out],
                       check=True, env=dict(os.environ, PYTHONHASHSEED=seed))
        with open(out, "rb") as f:
            outs.append(f.read())
assert outs[0] == outs[1] == outs[2], "the output depends on the hash seed"
'''
