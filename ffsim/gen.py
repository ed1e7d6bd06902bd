"""
Seeded generation of embeddings.  A spec is JSON; build(spec) gives the real
finalfusion objects and the reference Content.
"""
import copy
import datetime
import unicodedata

import numpy as np
import toml

from ffsim import model

ASCII = ["a", "I", "is", "the", "Test", "word", "with", "banana", "computer", "one", "x1",
         "don't", "-", "0.5", "12", "A,b", "#", "<a>", "<", ">", "nan", "1e5"]
UNI = ["Tübingen", "ß", "é", "naïve", "日本", "日本語", "Ж", "слово", "🙂", "a🙂b", "𝒳y", "e\u0301",
       "\ufeffbom", "ẞ", "İ", "ﬁ", "한국어", "\u200b", "𠀀"]
# fine in finalfusion files, impossible in separator based formats
ODD = ["", " ", "a b", "New York", "\n", "tab\tx", " lead", "trail ", "\x00", "a\x00b", "\u00a0",
       "\u2028", "\x1f", "\r", "\x85"]
# whitespace that no format takes for a separator
UWS = ["New\u00a0York", "\u00a0", "a\u3000b", "\u2003x", "y\u2009", "\u2028z", "p\x85q", "\x1f", "u\x1cv", "\u3000\u3000"]
ALPHA = "abcdefgh"


def rng_words(rng, n, odd, uws=True):
    pools = [ASCII, ASCII, ASCII, UNI, UNI, UWS] if uws else [ASCII, ASCII, UNI]
    if odd:
        pools.append(ODD)
    seen, out = set(), []
    while len(out) < n:
        k = rng.random()
        if k < 0.5:
            w = rng.choice(rng.choice(pools))
        elif k < 0.85:
            w = "".join(rng.choice(ALPHA) for _ in range(rng.randint(1, 9)))
        elif k < 0.91 and out:  # a relative of another word
            v = rng.choice(out)[:300]
            w = rng.choice([v.lower(), v.upper(), v.swapcase(), v + "s", v[:-1], "<" + v + ">", v[::-1], v + v,
                            unicodedata.normalize("NFC", v), unicodedata.normalize("NFD", v), v.casefold()])
            if not odd and (not w or w == "\n"):
                continue
        elif k < 0.97:
            w = rng.choice(UNI) + rng.choice(ASCII)
        else:
            w = rng.choice(["é", "q", "日", "🙂"]) * rng.choice([30, 127, 128, 300, 1100, 4200])
        if w not in seen:
            seen.add(w)
            out.append(w)
    return out


DATE = "@date:"  # plans are JSON, which has no dates


def real_meta(meta):
    """The metadata that a plan stands for."""
    if isinstance(meta, dict):
        return {k: real_meta(v) for k, v in meta.items()}
    if isinstance(meta, str) and meta.startswith(DATE):
        return datetime.datetime.fromisoformat(meta[len(DATE):])
    return copy.deepcopy(meta)


def rng_meta(rng):
    meta = {}
    for _ in range(rng.randint(0, 4)):
        key = rng.choice(["dims", "k", "läng", "with space", "a.b", "x-1", "lr", "nested", "empty"])
        val = rng.choice([1, -5, 0, 2**40, 1.5, -0.25, True, False, "value", "", "üñí 🙂", 'qu"ote',
                          "back\\slash", "line\nbreak", "tab\t", [1, 2, 3], ["a", "ß"], [],
                          {"in": 1, "deep": {"x": "y"}}, {}, DATE + "2020-02-29T12:30:00"])
        meta[key] = copy.deepcopy(val)
    if rng.random() < 0.1:
        meta["long"] = "x" * rng.choice([4090, 8192, 20000, 70000])
    return meta if meta_ok(meta) else {"k": "v"}


def meta_ok(meta):
    """Only metadata that the toml package itself round-trips is claimed."""
    meta = real_meta(meta)
    try:
        text = toml.dumps(meta)
        return toml.loads(text) == meta and toml.loads(text.encode().decode()) == meta
    except Exception:  # pylint: disable=broad-except
        return False


def gen_vocab(rng, kind=None, odd=True, maxwords=12, minwords=0, large=None):
    """large: None, or what is unusually large about this vocabulary: "words", "word", "buckets", "both" """
    kind = kind or rng.choice(["simple", "bucket", "fasttext", "explicit"])
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 12])
    n = max(minwords, min(maxwords, n))
    if large in ("words", "both"):
        n = rng.choice([33, 64, 100, 255, 256, 257] + [300, 1000, 1025] * (maxwords >= 12))
    words = rng_words(rng, n, odd)
    if large == "word":
        w = rng.choice(["long", "é", "日"]) * rng.choice([2800, 21846, 32768] if kind == "simple" else [700, 2048])
        words = words[:4] + [w]
    v = {"type": kind, "words": words}
    if kind == "simple":
        return v
    v["min_n"] = rng.choice([1, 2, 3, 3, 3, 4])
    v["max_n"] = v["min_n"] + rng.choice([0, 1, 2, 3, 3])
    if rng.random() < 0.03:
        v["min_n"], v["max_n"] = rng.choice([(1, 12), (5, 6), (6, 11), (8, 8), (3, 20)])
    if kind == "bucket":
        v["buckets"] = rng.choice([8, 10, 12] if large in ("buckets", "both") else [1, 2, 3, 4, 5, 6])
    elif kind == "fasttext":
        v["buckets"] = rng.choice([255, 256, 1000, 4097] if large in ("buckets", "both") else [1, 2, 3, 7, 10, 16, 33, 60])
    else:
        pool = []
        for w in v["words"]:
            pool += model.ngrams("<" + w + ">", v["min_n"], v["max_n"])
        pool += model.ngrams("<abcdefgh>", v["min_n"], v["max_n"])
        pool = list(dict.fromkeys(pool))
        m = min(len(pool), rng.choice([1, 1, 2, 3, 5, 9, 20, 40]))
        if large:
            m = min(len(pool), rng.choice([100, 1000, 3000]))
        if rng.random() < 0.06:
            m = 0
        v["ngrams"] = rng.sample(pool, m)
        if m and rng.random() < 0.6:  # several n-grams share an index
            distinct = rng.randint(1, m)
            idx = list(range(distinct)) + [rng.randrange(distinct) for _ in range(m - distinct)]
            rng.shuffle(idx)
            v["index"] = idx
        else:
            v["index"] = list(range(m))
    return v


def bound(v):
    n = len(v["words"])
    if v["type"] == "simple":
        return n
    if v["type"] == "bucket":
        return n + 2**v["buckets"]
    if v["type"] == "fasttext":
        return n + v["buckets"]
    return n + (max(v["index"]) + 1 if v["index"] else 0)


def gen_spec(rng, kind=None, storage=None, odd=True, big=True, special=True, layouts=None,
             maxwords=12, minwords=0, norms=None, meta=None, minrows=0, nonzero=False, large=0.015, zero_norms=False,
             huge=0.0):
    huge = rng.random() < huge
    large = rng.choice(["words", "both", "word", "buckets"]) if rng.random() < large else None
    v = gen_vocab(rng, kind, odd, maxwords, minwords, large)
    while bound(v) < minrows:
        v = gen_vocab(rng, kind, odd, maxwords, max(1, minwords))
    if huge:  # as many words as real models have, or megabytes of matrix
        words = rng.choice([2000, 4097, 8193, 65536, 65537, 70001])
        v = {"type": "simple", "words": [f"w{i}" for i in range(words)]}
        kind, layouts = "simple", ["C", "be"]
        rng.shuffle(v["words"])
    st = storage or rng.choice(["nd", "nd", "pq"])
    spec = {"vocab": v, "mseed": rng.randrange(2**31)}
    layouts = layouts or ["C", "C", "C", "F", "stride", "be", "slice", "ro"]
    if st == "nd":
        dims = rng.choice([1, 2, 3, 4, 5, 8, 10, 16])
        if big and not large and rng.random() < 0.08:
            dims = rng.choice([257, 600, 1025, 2100])
        if huge:
            dims = rng.choice([d for d in (1, 8, 100, 1000, 2600) if d * words <= 6_000_000])
        spec["dims"] = dims
        s = {"type": "nd", "layout": rng.choice(layouts)}
        if rng.random() < 0.3:
            s["normalized"] = True
    else:
        qlen = rng.choice([1, 2, 3, 4])
        sub = rng.choice([1, 2, 3, 4])
        if big and not large and rng.random() < 0.06:
            qlen, sub = rng.choice([(40, 2), (16, 16), (64, 1)])
        spec["dims"] = qlen * sub
        s = {"type": "pq", "qlen": qlen, "cent": rng.choice([1, 2, 5, 16, 255, 256] if big else [1, 2, 5, 16]),
             "proj": rng.random() < 0.4, "norms": rng.random() < 0.5, "layout": rng.choice(layouts)}
    s["scale"] = rng.choice([1.0, 1.0, 1.0, 1e-3, 100.0])
    rows = bound(v)
    if rows and not nonzero and rng.random() < 0.25:
        s["zero_rows"] = sorted(rng.sample(range(rows), min(rows, rng.randint(1, 2))))
    if special and st == "nd" and rows and rng.random() < 0.15:
        s["special"] = [[rng.randrange(rows), rng.randrange(spec["dims"]),
                         rng.choice(["nan", "inf", "-inf", "-0.0", "1e-45", "3.4e38"])]
                        for _ in range(rng.randint(1, 3))]
    spec["storage"] = s
    if huge:
        spec["huge"] = True
    if norms if norms is not None else rng.random() < 0.5:
        spec["norms"] = {"kind": rng.choice(["random", "random", "ones", "zero"] if special or zero_norms else ["random"]),
                         "layout": rng.choice(["C", "C", "stride", "be"])}
    if meta if meta is not None else rng.random() < 0.5:
        spec["meta"] = rng_meta(rng)
    return spec


# ---- building ---------------------------------------------------------------------------
def _values(spec):
    rs = np.random.RandomState(spec["mseed"])
    rows = 0 if spec.get("bare") else bound(spec["vocab"])
    s = spec["storage"]
    out = {}
    if s["type"] == "nd":
        m = (rs.standard_normal((rows, spec["dims"])) * s.get("scale", 1.0)).astype("<f4")
        if s.get("normalized") and rows:
            nrm = np.sqrt((m.astype(np.float64)**2).sum(1))
            nrm[nrm == 0] = 1
            m = (m / nrm[:, None]).astype("<f4")
        for r in s.get("zero_rows", []):
            if r < rows:
                m[r] = 0
        for r, c, val in s.get("special", []):
            if r < rows and c < spec["dims"]:
                m[r, c] = np.float32(val)
        out["matrix"] = m
    else:
        q, sub = s["qlen"], spec["dims"] // s["qlen"]
        out["quantizers"] = (rs.standard_normal((q, s["cent"], sub)) * s.get("scale", 1.0)).astype("<f4")
        out["projection"] = rs.standard_normal((spec["dims"], spec["dims"])).astype("<f4") if s["proj"] else None
        out["codes"] = rs.randint(0, s["cent"], (rows, q)).astype("u1")
        if s["norms"]:
            out["qnorms"] = (rs.rand(rows) + 0.5).astype("<f4")
            for r in s.get("zero_rows", []):
                if r < rows:
                    out["qnorms"][r] = 0
        else:
            out["qnorms"] = None
    n = spec.get("norms")
    if n:
        k = len(spec["vocab"]["words"])
        vals = (rs.rand(k) * 5 + 0.25).astype("<f4")
        if n["kind"] == "ones":
            vals[:] = 1
        elif n["kind"] == "zero" and k:
            vals[rs.randint(k)] = 0
        out["norms"] = vals
    else:
        out["norms"] = None
    return out


def content_of(spec):
    v = spec["vocab"]
    voc = model.VocabC(v["type"], v["words"], v.get("min_n"), v.get("max_n"), v.get("buckets"),
                       v.get("ngrams"), v.get("index"))
    x = _values(spec)
    if spec["storage"]["type"] == "nd":
        st = model.NdC(x["matrix"])
    else:
        st = model.PqC(x["quantizers"], x["projection"], x["codes"], x["qnorms"])
    return model.Content(voc, st, x["norms"], real_meta(spec.get("meta")))


def lay(a, how):
    """The same values in another memory layout."""
    if a is None:
        return None
    if how == "F":
        return np.asfortranarray(a)
    if how == "stride":
        big = np.full(tuple(2 * d + 1 for d in a.shape), 7, dtype=a.dtype)
        view = big[tuple(slice(1, 2 * d + 1, 2) for d in a.shape)]
        view[...] = a
        return view
    if how == "be" and a.dtype.itemsize > 1:
        return a.astype(a.dtype.newbyteorder(">"))
    if how == "slice":
        big = np.full((a.shape[0] + 3, ) + a.shape[1:], 9, dtype=a.dtype)
        big[2:2 + a.shape[0]] = a
        return big[2:2 + a.shape[0]]
    if how == "ro":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


def make_vocab(ff, v):
    words = list(v["words"])
    if v["type"] == "simple":
        return ff.SimpleVocab(words)
    if v["type"] == "bucket":
        return ff.FinalfusionBucketVocab(words, ff.FinalfusionHashIndexer(v["buckets"], v["min_n"], v["max_n"]))
    if v["type"] == "fasttext":
        return ff.FastTextVocab(words, ff.FastTextIndexer(v["buckets"], v["min_n"], v["max_n"]))
    index = dict(zip(v["ngrams"], v["index"]))
    if v["index"] == list(range(len(v["index"]))):
        index = None
    return ff.ExplicitVocab(words, ff.ExplicitIndexer(list(v["ngrams"]), v["min_n"], v["max_n"], index))


def gen_bare(rng):
    """A vocabulary by itself, with as many buckets as real models have, or as many as possible."""
    v = gen_vocab(rng, rng.choice(["bucket", "fasttext"]), large=rng.choice([None, None, "words"]))
    v["max_n"] = v["min_n"] + rng.choice([0, 3, 10])
    v["buckets"] = rng.choice([7, 8, 15, 16, 21, 31, 32, 33, 40, 62, 63] if v["type"] == "bucket" else
                              [65535, 65536, 2000000, 2**31 - 1, 2**31, 2**32 - 1])
    return {"vocab": v, "mseed": 1, "dims": 1, "storage": {"type": "nd", "layout": "C"}, "bare": True}


class Bare:
    """Only a vocabulary."""
    def __init__(self, vocab):
        self.vocab, self.storage, self.norms, self.metadata = vocab, None, None, None


def build(ff, spec):
    """(Embeddings, Content)"""
    content = content_of(spec)
    if spec.get("bare"):
        return Bare(make_vocab(ff, spec["vocab"])), content
    how = spec["storage"]["layout"]
    if spec["storage"]["type"] == "nd":
        st = ff.NdArray(lay(content.storage.matrix, how))
    else:
        c = content.storage
        st = ff.QuantizedArray(ff.PQ(lay(c.quantizers, how), lay(c.projection, how)),
                               lay(c.codes, how), lay(c.norms, how))
    norms = None
    if content.norms is not None:
        norms = ff.Norms(lay(content.norms, spec["norms"]["layout"]))
    if spec.get("retype"):
        st, norms = retype(ff, st, norms, spec["retype"], content.storage)
    meta = None if content.meta is None else ff.Metadata(copy.deepcopy(content.meta))
    return ff.Embeddings(st, make_vocab(ff, spec["vocab"]), norms, meta), content


RETYPE = ["storage", "storage", "norms", "projection", "codes", "storage norms"]


def retype(ff, st, norms, what, c):
    """The same values in arrays of another type, as computing with them easily gives."""
    if norms is not None and "norms" in what:
        norms = norms.astype(np.float64)
    if isinstance(st, ff.NdArray):
        if "storage" in what:
            st = st.astype(np.float64)
    else:
        def to(a, part):
            return a if a is None or part not in what else a.astype(np.int64 if part == "codes" else np.float64)
        st = ff.QuantizedArray(ff.PQ(to(c.quantizers.copy(), "storage"), to(c.projection, "projection")),
                               to(c.codes.copy(), "codes"), to(c.norms, "norms"))
    return st, norms


# ---- shrinking ------------------------------------------------------------------------------
def shrink_spec(spec):
    """Simpler specs, most drastic first."""
    out = []

    def add(fn):
        s = copy.deepcopy(spec)
        if fn(s) is not False:
            out.append(s)
    for key in ("meta", "norms"):
        if key in spec:
            add(lambda s, k=key: s.pop(k))
    if spec.get("meta"):
        for k in spec["meta"]:
            add(lambda s, k=k: s["meta"].pop(k))
    if spec["storage"]["layout"] != "C":
        add(lambda s: s["storage"].update(layout="C"))
    for key in ("special", "zero_rows", "normalized"):
        if key in spec["storage"]:
            add(lambda s, k=key: s["storage"].pop(k))
    if "norms" in spec and (spec["norms"]["layout"] != "C" or spec["norms"]["kind"] != "random"):
        add(lambda s: s["norms"].update(layout="C", kind="random"))
    words = spec["vocab"]["words"]
    if len(words) > 1:
        add(lambda s: s["vocab"].update(words=words[:len(words) // 2]))
        add(lambda s: s["vocab"].update(words=words[len(words) // 2:]))
    if len(words) > 40:
        k = len(words) // 8
        for i in range(0, len(words), k):
            add(lambda s, i=i: s["vocab"].update(words=words[:i] + words[i + k:]))
    few = words if len(words) <= 40 else []
    for i in range(len(few)):
        add(lambda s, i=i: s["vocab"]["words"].pop(i))
    for i, w in enumerate(few):
        simple = ALPHA[i % 8] + str(i)
        if w != simple and simple not in words:
            add(lambda s, i=i, w=simple: s["vocab"]["words"].__setitem__(i, w))
    if spec["vocab"].get("ngrams"):
        m = len(spec["vocab"]["ngrams"])
        if m > 1:
            add(lambda s: s["vocab"].update(ngrams=s["vocab"]["ngrams"][:m // 2],
                                            index=list(range(m // 2))))
            add(lambda s: s["vocab"].update(ngrams=s["vocab"]["ngrams"][:m - 1],
                                            index=list(range(m - 1))))
    if spec["vocab"]["type"] != "simple":
        add(lambda s: s.update(vocab={"type": "simple", "words": words}))
    if spec["storage"]["type"] == "pq":
        add(lambda s: s.update(storage={"type": "nd", "layout": "C"}))
        for k in ("proj", "norms"):
            if spec["storage"][k]:
                add(lambda s, k=k: s["storage"].update({k: False}))
    elif spec["dims"] > 1:
        add(lambda s: s.update(dims=1))
        add(lambda s: s.update(dims=max(1, s["dims"] // 2)))
        add(lambda s: s.update(dims=s["dims"] - 1))
    if spec["storage"].get("scale", 1.0) != 1.0:
        add(lambda s: s["storage"].update(scale=1.0))
    return out


def shrink_list(lst):
    n = len(lst)
    if n > 1:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]
