"""
Comparing what finalfusion hands out with the reference content.  Only public
attributes are used.  Every function returns None or a description of the
difference.
"""
import numpy as np

from ffsim import model
from ffsim.model import short

VOCAB_CLASS = {"simple": "SimpleVocab", "bucket": "FinalfusionBucketVocab",
               "fasttext": "FastTextVocab", "explicit": "ExplicitVocab"}


def f4(a):
    return np.ascontiguousarray(np.asarray(a).view(np.ndarray)).astype("<f4", copy=False)


def bits(a, b, what):
    """Bitwise equality of two float arrays (any byte order / layout)."""
    a = np.asarray(a)
    if a.dtype.kind != "f" or a.dtype.itemsize != 4:
        return f"{what} has dtype {a.dtype}"
    if a.shape != b.shape:
        return f"{what} has shape {a.shape}, expected {b.shape}"
    x, y = f4(a), f4(b)
    if x.tobytes() != y.tobytes():
        bad = np.argwhere(x.view("<u4") != y.view("<u4")) if x.ndim else []
        at = tuple(int(i) for i in bad[0]) if len(bad) else ()
        return f"{what} differs at {at}: {x[at]!r}, expected {y[at]!r}"
    return None


def close(a, b, what, rtol=2e-4, atol=None):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return f"{what} has shape {a.shape}, expected {b.shape}"
    if atol is None:
        fin = np.abs(b[np.isfinite(b)])
        atol = 1e-5 * (float(fin.max()) if fin.size else 1.0) + 1e-30
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        at = tuple(int(i) for i in np.argwhere(~ok)[0])
        return f"{what} differs at {at}: {a[at]!r}, expected {b[at]!r}"
    return None


def vocab(v, want):
    if type(v).__name__ != VOCAB_CLASS[want.kind]:
        return f"vocabulary is a {type(v).__name__}, expected {VOCAB_CLASS[want.kind]}"
    if list(v.words) != want.words:
        return f"words {short(list(v.words))}, expected {short(want.words)}"
    if len(v) != len(want.words) or list(v) != want.words:
        return "len / iteration of the vocabulary disagree with its words"
    if dict(v.word_index) != {w: i for i, w in enumerate(want.words)}:
        return f"word index {short(dict(v.word_index))} does not number the words"
    if v.upper_bound != want.bound:
        return f"upper_bound {v.upper_bound}, expected {want.bound}"
    if want.kind == "simple":
        return None
    ind = v.subword_indexer
    if (v.min_n, v.max_n) != (want.min_n, want.max_n):
        return f"n-gram range {(v.min_n, v.max_n)}, expected {(want.min_n, want.max_n)}"
    if want.kind == "bucket":
        if ind.buckets_exp != want.buckets:
            return f"bucket exponent {ind.buckets_exp}, expected {want.buckets}"
    elif want.kind == "fasttext":
        if ind.n_buckets != want.buckets:
            return f"{ind.n_buckets} buckets, expected {want.buckets}"
    else:
        if list(ind.ngrams) != want.ngrams:
            return f"n-grams {short(list(ind.ngrams))}, expected {short(want.ngrams)}"
        if dict(ind.ngram_index) != dict(zip(want.ngrams, want.index)):
            return f"n-gram index {short(dict(ind.ngram_index))}"
    return None


def indices(v, want, oov=("unknownword", "zz", "日本", "")):
    """Indices of known and unknown words."""
    if want.kind == "simple":
        return None
    for w in want.words[:5] + list(oov):
        got, ref = v.subword_indices(w), [i for _, i in want.subword_indices(w)]
        if got != ref:
            return f"subword indices of {short(w)} are {short(got)}, expected {short(ref)}"
    return None


def storage(s, want, values=True):
    if want.kind == "nd":
        if type(s).__name__ != "NdArray":
            return f"storage is a {type(s).__name__}, expected NdArray"
        return bits(s, want.matrix, "matrix")
    if type(s).__name__ != "QuantizedArray":
        return f"storage is a {type(s).__name__}, expected QuantizedArray"
    if tuple(s.shape) != (want.codes.shape[0], want.quantizers.shape[0] * want.quantizers.shape[2]):
        return f"storage has shape {s.shape}"
    if len(s) != want.codes.shape[0] or s.quantized_len != want.codes.shape[1]:
        return f"quantized storage: {len(s)} rows of {s.quantized_len} codes, expected {want.codes.shape}"
    if (s.quantizer.n_centroids, s.quantizer.reconstructed_len) != (want.quantizers.shape[1], s.shape[1]):
        return f"quantizer of {s.quantizer.n_centroids} centroids for vectors of {s.quantizer.reconstructed_len} components"
    r = bits(s.quantizer.subquantizers, want.quantizers, "quantizers")
    if r:
        return r
    if (s.quantizer.projection is None) != (want.projection is None):
        return f"projection present: {s.quantizer.projection is not None}"
    if want.projection is not None:
        r = bits(s.quantizer.projection, want.projection, "projection")
        if r:
            return r
    if values:
        return close(np.asarray(s), want.rows(), "reconstructed matrix")
    return None


def norms(n, want):
    if want is None:
        return None if n is None else "norms appeared"
    if n is None:
        return "norms are missing"
    if type(n).__name__ != "Norms":
        return f"norms are a {type(n).__name__}"
    return bits(n, want, "norms")


def meta(m, want):
    if want is None:
        return None if m is None else f"metadata appeared: {short(dict(m))}"
    if m is None:
        return "metadata is missing"
    if type(m).__name__ != "Metadata":
        return f"metadata is a {type(m).__name__}"
    if dict(m) != want:
        return f"metadata {short(dict(m))}, expected {short(want)}"
    return None


def embeddings(e, want, values=True):
    return vocab(e.vocab, want.vocab) or storage(e.storage, want.storage, values) or \
        norms(e.norms, want.norms) or meta(e.metadata, want.meta)


def lookups(e, want, oov=("unknownword", "zz", "日", "")):
    """Word lookups through the embeddings (in vocabulary and out)."""
    q = model.Queries(want)
    for w in list(want.vocab.words) + [o for o in oov if o not in q.index]:
        ref = q.embedding(w)
        got = e.embedding(w)
        if (w in e) != (w in q.index):
            return f"{w!r} in embeddings: {w in e}"
        if ref is None:
            if got is not None:
                return f"embedding({w!r}) gave a vector, expected none"
            continue
        if got is None:
            return f"embedding({w!r}) gave None"
        vec, norm, degenerate = ref
        if degenerate:
            continue
        r = close(got, vec, f"embedding({w!r})")
        if r:
            return r
        if e.norms is not None:
            pair = e.embedding_with_norm(w)
            r = close(pair[0], vec, f"embedding_with_norm({w!r})") or \
                close(pair[1], norm, f"norm of {w!r}")
            if r:
                return r
    return None


class Frozen:
    """A deep picture of live embeddings, to notice any later change."""
    def __init__(self, e):
        self.parts = self.take(e)

    @staticmethod
    def arr(a):
        if a is None:
            return None
        a = np.asarray(a)
        return (a.dtype.str, a.shape, a.flags.writeable, np.ascontiguousarray(a).tobytes())

    @classmethod
    def take(cls, e):
        v, s = e.vocab, e.storage
        out = {"origin": e.origin, "types": tuple(type(x).__name__ for x in (v, s, e.norms, e.metadata)),
               "words": tuple(v.words), "word index": tuple(v.word_index.items()),
               "metadata": None if e.metadata is None else repr(dict(e.metadata)),
               "norms": cls.arr(e.norms)}
        ind = getattr(v, "subword_indexer", None)
        if ind is not None:
            out["indexer"] = (ind.min_n, ind.max_n, ind.upper_bound)
            if hasattr(ind, "ngrams"):
                out["ngrams"] = (tuple(ind.ngrams), tuple(ind.ngram_index.items()))
        if type(s).__name__ == "QuantizedArray":
            out["quantizers"] = cls.arr(s.quantizer.subquantizers)
            out["projection"] = cls.arr(s.quantizer.projection)
            try:
                out["reconstruction"] = cls.arr(np.asarray(s))
            except (ValueError, TypeError):  # layouts that numpy's dot cannot write into
                out["reconstruction"] = None
            out["shape"] = (tuple(s.shape), s.quantized_len)
        else:
            out["matrix"] = cls.arr(s)
        return out

    def changed(self, e):
        now = self.take(e)
        for k, val in self.parts.items():
            if now.get(k) != val:
                return k
        return None
