"""
Read-only queries as data: generation, execution against real embeddings, and
judgement of the answers against the documented meaning (model.Queries).
"""
import numpy as np

from ffsim import gen, model, observe
from ffsim.model import short

FILL = 7.5
SUBWORD = ("subwords", "subword_indices", "explicit", "ngram", "vocabexplicit")  # need a subword vocabulary
ROWS = ("rows", "stored", "normrows", "part")  # name rows by number


def gen_words(rng, spec, n=6):
    """Words to ask for: known ones, unknown ones that share n-grams, and odd ones."""
    known = spec["vocab"]["words"]
    out = []
    for _ in range(n):
        k = rng.random()
        if known and k < 0.5:
            out.append(rng.choice(known))
        elif known and k < 0.7:
            w = rng.choice(known)
            i = rng.randrange(len(w) + 1)
            out.append((w[:i] + rng.choice(["", "x", "ß", "日"]) + rng.choice(known)[i:])[:40])
        elif known and k < 0.76:
            w = rng.choice(known)[:40]
            out.append(rng.choice([w.lower(), w.upper(), w.swapcase(), w + " ", "<" + w, w + "\n", w.strip()]))
        elif k < 0.9:
            out.append("".join(rng.choice(gen.ALPHA) for _ in range(rng.randint(1, 9))))
        else:
            out.append(rng.choice(["", "<", ">", "日本語", "🙂", "a", "zz zz", "\x00", "é" * 50]))
    return out


def gen_query(rng, spec, words, kind=None):
    """One query as JSON."""
    subword = spec["vocab"]["type"] != "simple"
    rows = gen.bound(spec["vocab"])
    kinds = ["embedding"] * 6 + ["norm"] * 3 + ["getitem"] * 2 + ["contains", "similar", "similar", "analogy", "analogy",
                                                                  "vecsim", "iterate", "idx", "vocabitem", "rows",
                                                                  "rows", "matrix", "info", "stiter", "normrows",
                                                                  "eq", "containsall", "meta", "chunks", "part", "part"]
    if subword:
        kinds += ["subwords", "subword_indices", "subword_indices", "explicit", "ngram", "vocabexplicit"]
    if spec["storage"]["type"] == "pq":
        kinds += ["stored", "stored", "reconstruct"]
    q = {"q": kind or rng.choice(kinds), "w": rng.choice(words)}
    if rng.random() < 0.25:
        q["scribble"] = True
    k = q["q"]
    if k in ("embedding", "norm"):
        q["out"] = rng.choice([None, None, "new", "slice", "stride"])
        q["default"] = rng.random() < 0.4
    elif k in ("similar", "analogy", "vecsim"):
        n = len(spec["vocab"]["words"])
        q["k"] = rng.choice([0, 1, 1, 2, 3, 10, max(1, n - 1), n, n + 1, n + 20, None])
        if k == "analogy":
            q["ws"] = [rng.choice(words) for _ in range(3)]
        if k == "vecsim":
            q["vseed"] = rng.randrange(2**31)
        if k != "similar" and rng.random() < 0.6:
            q["skip"] = sorted({rng.choice(words) for _ in range(rng.randint(0, 4))})
            if n > 3 and rng.random() < 0.4:  # leave out much of the vocabulary
                q["skip"] = sorted(set(q["skip"]) | set(rng.sample(spec["vocab"]["words"], min(rng.randint(2, n), 40))))
                if rng.random() < 0.5:
                    q["k"] = rng.choice([1, 1, 2, 3])
    elif k == "iterate":
        q["m"] = rng.choice([None, None, 1, 2])
    elif k == "idx":
        q["default"] = rng.random() < 0.5
    elif k == "subword_indices":
        q["bracket"] = rng.random() < 0.7
        q["with_ngrams"] = rng.random() < 0.5
    elif k == "subwords":
        q["bracket"] = rng.random() < 0.7
    elif k == "eq":
        q["other"] = rng.choice(["same", "same", "reversed", "fewer", "more", "type", "range", "buckets", "text"])
    elif k == "containsall":
        q["items"] = [rng.choice(words) for _ in range(rng.randint(0, 3))]
        q["as"] = rng.choice(["list", "tuple", "set", "vocab", "int", "none"])
    elif k == "ngram":
        word = "<" + rng.choice(words) + ">"
        i = rng.randrange(len(word))
        q["ng"] = word[i:i + rng.randint(1, 6)]
        q["items"] = [q["ng"]] + spec["vocab"].get("ngrams", [])[:rng.randint(0, 2)]
    elif k == "reconstruct":
        q["shape"] = rng.choice([[], [1], [3], [0], [2, 3], [17]])
        q["vseed"] = rng.randrange(2**31)
        q["outarr"] = rng.choice([None, "new", "slice"])
        q["int"] = rng.choice(["u1", "u1", "i8", "u2"])
    elif k in ("rows", "stored", "normrows", "part"):
        if k == "normrows":
            rows = len(spec["vocab"]["words"])
        if not rows:
            q["q"] = "info"
            return q
        if k == "stored":
            q["outarr"] = rng.choice([None, "new", "slice"])
        q["form"] = rng.choice(["int", "neg", "list", "array", "array2", "slice", "slice"] * 3 +
                               ["npint", "mask", "none", "negs", "open", "all"])
        q["total"] = rows
        q["idx"] = [rng.randrange(rows) for _ in range(rng.choice([1, 2, 4] if rng.random() < 0.97 else [70, 300]))]
        q["step"] = rng.choice([None, 1, 2, -1])
        if k == "part":
            q["form"] = rng.choice(["slice", "slice", "open", "all"])
            q["pick"] = rng.randrange(1000)
    return q


def out_array(q, dims):
    """(array to pass, whole buffer)"""
    if q["out"] == "new":
        a = np.full(dims, FILL, dtype=np.float32)
        return a, a
    if q["out"] == "slice":
        a = np.full((3, dims), FILL, dtype=np.float32)
        return a[1], a
    a = np.full(2 * dims + 1, FILL, dtype=np.float32)
    return a[1::2][:dims], a


def default_vec(dims):
    return np.arange(dims, dtype=np.float32) + 100


def rows_key(q):
    if q["form"] == "int":
        return q["idx"][0]
    if q["form"] == "neg":
        return -q["idx"][0] - 1
    if q["form"] == "list":
        return list(q["idx"])
    if q["form"] == "array":
        return np.array(q["idx"])
    if q["form"] == "array2":
        return np.array([q["idx"], q["idx"][::-1]])
    if q["form"] == "npint":
        return np.int64(q["idx"][0])
    if q["form"] == "mask":
        return np.isin(np.arange(q["total"]), q["idx"])
    if q["form"] == "none":
        return []
    if q["form"] == "negs":
        return [-i - 1 for i in q["idx"]]
    if q["form"] == "open":
        return slice(-q["idx"][0] - 1, None, q["step"]) if q["step"] != -1 else slice(None, q["idx"][0], -1)
    if q["form"] == "all":
        return slice(None)
    lo, hi = min(q["idx"]), max(q["idx"]) + 1
    if q["step"] == -1:
        return slice(hi - 1, lo - 1 if lo else None, -1)
    return slice(lo, hi, q["step"])


def same_skip(q, kw, val):
    if "skip" in q and kw["skip"] != set(q["skip"]):
        raise RuntimeError(f"the set of words to leave out is {kw['skip']} afterwards, it was {set(q['skip'])}")
    return val


def unchanged(now, then, what):
    if not (np.array_equal(now, then, equal_nan=True) if isinstance(now, np.ndarray) else now == then):
        raise RuntimeError(f"the {what} passed in is {short(now)} afterwards, it was {short(then)}")


def perform(ff, emb, q):
    """The answer, as live objects: ("ok", value, extra) or ("exc", exception)."""
    k, w = q["q"], q["w"]
    if k in ("embedding", "norm"):
        kw, whole = {}, None
        if q["out"]:
            kw["out"], whole = out_array(q, emb.dims)
        if q["default"]:
            kw["default"] = default_vec(emb.dims) if k == "embedding" else (default_vec(emb.dims), 12.0)
        fn = emb.embedding if k == "embedding" else emb.embedding_with_norm
        val = fn(w, **kw)
        if q["default"]:
            d = kw["default"] if k == "embedding" else kw["default"][0]
            unchanged(d, default_vec(emb.dims), "default")
        return val, (kw.get("out"), whole)
    if k == "getitem":
        return emb[w], None
    if k == "contains":
        return w in emb, None
    if k in ("similar", "analogy", "vecsim"):
        kw = {} if q["k"] is None else {"k": q["k"]}
        if "skip" in q:
            kw["skip"] = set(q["skip"])
        if k == "similar":
            return emb.word_similarity(w, **kw), None
        if k == "analogy":
            return same_skip(q, kw, emb.analogy(*q["ws"], **kw)), None
        v = query_vec(q, emb.dims)
        val = same_skip(q, kw, emb.embedding_similarity(v, **kw))
        unchanged(v, query_vec(q, emb.dims), "query vector")
        return val, v
    if k == "iterate":
        if q.get("m") is None:
            return list(emb), None
        return [item for item, _ in zip(emb, range(q["m"]))], None
    if k == "idx":
        return (emb.vocab.idx(w, -5) if q["default"] else emb.vocab.idx(w)), None
    if k == "vocabitem":
        return emb.vocab[w], None
    if k == "subwords":
        return (emb.vocab.subwords(w) if by_default(q) else emb.vocab.subwords(w, bracket=q["bracket"])), None
    if k == "subword_indices":
        kw = {} if by_default(q) else {"bracket": q["bracket"]}
        if q["with_ngrams"] or len(w) % 3:
            kw["with_ngrams"] = q["with_ngrams"]
        return emb.vocab.subword_indices(w, **kw), None
    if k == "rows":
        key = rows_key(q)
        got = emb.storage[key]
        unchanged(key, rows_key(q), "key")
        return got, None
    if k == "matrix":
        return np.asarray(emb.storage), None
    if k == "info":
        return [emb.dims, emb.n_words, len(emb.vocab), emb.vocab.upper_bound, list(emb.storage.shape),
                len(emb.storage), repr(emb), list(emb.vocab)], None
    if k == "explicit":
        return emb.bucket_to_explicit(), None
    if k == "stiter":
        return list(emb.storage), None
    if k == "normrows":
        return None if emb.norms is None else emb.norms[rows_key(q)], None
    if k == "stored":
        key = rows_key(q)
        if not q["outarr"]:
            return emb.storage.embedding(key), None
        shape = np.zeros(emb.storage.shape[0])[key].shape + (emb.dims,)
        whole = np.full((3,) + shape, FILL, dtype=np.float32)
        out = whole[1]
        return emb.storage.embedding(key, out=out), (out, whole)
    if k == "reconstruct":
        pq = emb.storage.quantizer
        codes = some_codes(q, pq.subquantizers)
        if not q["outarr"]:
            val, extra = pq.reconstruct(codes), None
        else:
            whole = np.full((3,) + codes.shape[:-1] + (emb.dims,), FILL, dtype=np.float32)
            out = whole[1]
            val, extra = pq.reconstruct(codes, out=out), (out, whole)
        unchanged(codes, some_codes(q, pq.subquantizers), "codes")
        return val, extra
    if k == "chunks":
        return [type(c).__name__ for c in emb.chunks()], None
    if k == "part":  # a slice is a storage of its own
        st = emb.storage[rows_key(q)]
        n = len(st)
        return [type(st).__name__, n, list(st.shape), np.asarray(st, dtype=np.float64), list(st),
                st[q["pick"] % n] if n else None, np.asarray(st[::2]), st[list(range(n))[::-1]] if n else None], None
    if k == "eq":
        other = other_vocab(ff, emb.vocab, q)
        return [emb.vocab == other, other == emb.vocab, emb.vocab != other], None
    if k == "containsall":
        items = {"list": list, "tuple": tuple, "set": set, "vocab": lambda x: ff.SimpleVocab(list(dict.fromkeys(x))),
                 "int": len, "none": lambda x: None}[q["as"]](q["items"])
        return [items in emb.vocab, items in emb], None
    if k == "meta":
        m = emb.metadata
        return None if m is None else repr(sorted(m.items(), key=lambda kv: kv[0])), None
    if k == "ngram":
        ind = emb.vocab.subword_indexer
        out = [ind(q["ng"]), ind.min_n, ind.max_n, ind.upper_bound]
        if type(ind).__name__ == "ExplicitIndexer":
            out += [q["ng"] in ind, q["items"] in ind, None in ind, len(ind), list(ind), ind[ind.ngrams[0]] if ind.ngrams
                    else None]
        return out, None
    if k == "vocabexplicit":
        return emb.vocab.to_explicit(), None
    raise ValueError(k)


def by_default(q):
    return q["bracket"] and len(q["w"]) % 2 == 0


def some_codes(q, quantizers):
    return np.random.RandomState(q["vseed"]).randint(0, quantizers.shape[1],
                                                     tuple(q["shape"]) + quantizers.shape[:1]).astype(q["int"])


def other_vocab(ff, v, q):
    """A vocabulary to compare with, made from the parts of v."""
    words, how = list(v.words), q["other"]
    if how == "text":
        return words
    if how == "reversed":
        words = words[::-1]
    elif how == "fewer":
        words = words[:-1]
    elif how == "more":
        words = words + ["w0"]
        while len(set(words)) < len(words):
            words[-1] += "x"
    name, ind = type(v).__name__, getattr(v, "subword_indexer", None)
    if how == "type":
        if name == "SimpleVocab":
            return ff.FinalfusionBucketVocab(words, ff.FinalfusionHashIndexer(2))
        if name == "FinalfusionBucketVocab":
            return ff.FastTextVocab(words, ff.FastTextIndexer(ind.upper_bound, ind.min_n, ind.max_n))
        return ff.SimpleVocab(words)
    if name == "SimpleVocab":
        return ff.SimpleVocab(words)
    max_n = ind.max_n + (how == "range")
    if name == "FinalfusionBucketVocab":
        return ff.FinalfusionBucketVocab(words, ff.FinalfusionHashIndexer(ind.buckets_exp + (how == "buckets"), ind.min_n,
                                                                          max_n))
    if name == "FastTextVocab":
        return ff.FastTextVocab(words, ff.FastTextIndexer(ind.n_buckets + (how == "buckets"), ind.min_n, max_n))
    ngrams, index = list(ind.ngrams), dict(ind.ngram_index)
    if how == "buckets":
        ngrams.append("w0")
        while len(set(ngrams)) < len(ngrams):
            ngrams[-1] += "x"
        index[ngrams[-1]] = ind.upper_bound
    return ff.ExplicitVocab(words, ff.ExplicitIndexer(ngrams, ind.min_n, max_n, index))


def vocabs_equal(q, c):
    how, n = q["other"], len(c.vocab.words)
    if how == "reversed":
        return n < 2
    if how == "fewer":
        return n == 0
    if how in ("range", "buckets"):
        return c.vocab.kind == "simple"
    return how == "same"


def query_vec(q, dims):
    return np.random.RandomState(q["vseed"]).standard_normal(dims).astype(np.float32)


def guarded(ff, emb, q, through=()):
    """perform() with the package's own exceptions as answers."""
    try:
        val, extra = perform(ff, emb, q)
        return "ok", val, extra
    except through:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return "exc", e, None


def snap(x):
    """Deep copy of an answer for later comparison."""
    if x is None or isinstance(x, (str, bool, int)):
        return x
    if type(x) is float:
        return ("float", repr(x))
    if isinstance(x, np.ndarray) and x.ndim:
        return ("arr", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, (np.generic, np.ndarray)):
        return ("num", x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(i) for i in x])
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__, str(x))
    name = type(x).__name__
    if name == "SimilarityResult":
        return (name, x.word, repr(float(x.similarity)))
    if name == "QuantizedArray":
        return (name, snap(np.asarray(x)))
    if name == "ExplicitVocab":
        ind = x.subword_indexer
        return (name, list(x.words), list(x.word_index.items()), ind.min_n, ind.max_n, list(ind.ngrams),
                list(ind.ngram_index.items()))
    if name == "Embeddings":
        return (name, sorted((k, repr(v)) for k, v in observe.Frozen.take(x).items()))
    raise TypeError(name)


def scribble(emb, q, kind, val):
    """
    The caller changes what it was handed, where that is its own: lists, and vectors that were computed or
    picked for it (not views of the matrix).  Returns a copy of the answer as it was.
    """
    k = q["q"]
    if kind != "ok" or val is None or q.get("out") or q.get("outarr"):
        return val
    fresh = type(emb.storage).__name__ == "QuantizedArray"
    if k in ("subwords", "subword_indices", "similar", "analogy", "vecsim") and type(val) is list:
        keep = list(val)
        val.reverse()
        val.append(val[0] if val else None)
        return keep
    if k in ("embedding", "norm", "getitem"):
        index = emb.vocab.idx(q["w"])
        if index is None or not fresh and not isinstance(index, list):
            return val
        if isinstance(val, tuple):
            return (overwrite(val[0]),) + val[1:]
        return overwrite(val)
    if k in ("rows", "stored") and (fresh or q["form"] in ("list", "array", "array2")) and type(val) is np.ndarray \
            or k == "matrix" and fresh:
        return overwrite(val)
    if k == "iterate" and fresh:
        return [(item[0], overwrite(item[1])) + tuple(item[2:]) for item in val]
    return val


def overwrite(a):
    keep = a.copy()
    if a.flags.writeable:
        a[...] = np.nan
    return keep


# ---- judging --------------------------------------------------------------------
def judge(q, kind, val, extra, ref):
    """None, or how the answer differs from the documented one. ref: model.Queries"""
    k, w, c = q["q"], q["w"], ref.c
    dims = ref.rows.shape[1]
    if k == "norm" and c.norms is None:
        return None if kind == "exc" and isinstance(val, TypeError) else \
            f"embeddings without norms: {kind} {short(val)}, expected a TypeError"
    if k in ("getitem", "vocabitem") and ref.idx(w) is None:
        return None if kind == "exc" and isinstance(val, KeyError) else f"{kind} {short(val)}, expected a KeyError"
    if k in ("explicit", "vocabexplicit") and c.vocab.kind not in ("bucket", "fasttext"):
        return None if kind == "exc" and isinstance(val, (TypeError, AttributeError)) else \
            f"{kind} {short(val)}, expected a TypeError"
    if kind == "exc":
        return f"raised {type(val).__name__}: {val}"
    if k in ("embedding", "norm", "getitem"):
        return judge_vector(q, val, extra, ref, dims)
    if k == "contains":
        return None if val is (w in ref.index) else f"gave {val!r}"
    if k in ("similar", "analogy", "vecsim"):
        return judge_similar(q, val, extra, ref)
    if k == "iterate":
        n = len(c.vocab.words)
        if q.get("m") is not None:
            n = min(n, q["m"])
        if len(val) != n:
            return f"iteration gives {len(val)} items, expected {n}"
        for i, item in enumerate(val):
            if len(item) != (2 if c.norms is None else 3) or item[0] != c.vocab.words[i]:
                return f"item {i} is {short(item)}"
            r = vec_diff(item[1], ref, i, f"item {i}")
            if r:
                return r
            if c.norms is not None and not same_norm(item[2], c.norms[i]):
                return f"item {i} has norm {item[2]!r}, expected {c.norms[i]!r}"
        return None
    if k in ("idx", "vocabitem"):
        want = ref.idx(w)
        if want is None:
            want = -5 if q["default"] else None
        return None if val == want and (val is None) == (want is None) else f"gave {short(val)}, expected {short(want)}"
    if k == "subwords":
        word = "<" + w + ">" if q["bracket"] else w
        want = model.ngrams(word, c.vocab.min_n, c.vocab.max_n)
        return None if val == want else f"gave {short(val)}, expected {short(want)}"
    if k == "subword_indices":
        want = c.vocab.subword_indices(w, q["bracket"])
        if not q["with_ngrams"]:
            want = [i for _, i in want]
        return None if val == want else f"gave {short(val)}, expected {short(want)}"
    if k == "rows":
        want = ref.rows[rows_key(q)]
        if q["form"] in ("slice", "open", "all") and type(val).__name__ not in ("NdArray", "QuantizedArray"):
            return f"a slice of the storage is a {type(val).__name__}"
        return values(np.asarray(val), want, c.storage.kind)
    if k == "matrix":
        return values(val, ref.rows, c.storage.kind)
    if k == "info":
        n = len(c.vocab.words)
        want = [dims, n, n, c.vocab.bound, [c.vocab.bound, dims], c.vocab.bound]
        if val[:6] != want or val[7] != c.vocab.words:
            return f"gave {short(val)}, expected {want}"
        return None
    if k == "stiter":
        if len(val) != len(ref.rows):
            return f"iteration gives {len(val)} rows, expected {len(ref.rows)}"
        for i, row in enumerate(val):
            r = vec_diff(row, ref, i, f"row {i}")
            if r:
                return r
        return None
    if k == "normrows":
        if c.norms is None:
            return None if val is None else "norms appeared"
        if q["form"] in ("slice", "open", "all") and type(val).__name__ != "Norms":
            return f"a slice of the norms is a {type(val).__name__}"
        return observe.bits(np.asarray(val), np.asarray(c.norms[rows_key(q)]), "norms")
    if k == "stored":
        want = ref.rows[rows_key(q)]
        if extra is not None:
            if val is not extra[0]:
                return "did not return out"
            if not (np.all(extra[1][0] == FILL) and np.all(extra[1][2] == FILL)):
                return "memory around out was written"
        return values(val, want, "pq")
    if k == "reconstruct":
        pq = c.storage
        codes = some_codes(q, pq.quantizers)
        flat = model.PqC(pq.quantizers, pq.projection, codes.reshape(-1, codes.shape[-1]), None)
        want = flat.rows().reshape(codes.shape[:-1] + (dims,))
        if extra is not None:
            if val is not extra[0]:
                return "did not return out"
            if not (np.all(extra[1][0] == FILL) and np.all(extra[1][2] == FILL)):
                return "memory around out was written"
        return values(val, want, "pq")
    if k == "chunks":
        want = ["Metadata"] * (c.meta is not None) + [observe.VOCAB_CLASS[c.vocab.kind]] + \
            [STORAGE_CLASS[c.storage.kind]] + ["Norms"] * (c.norms is not None)
        return None if val == want else f"gave {val}, expected {want}"
    if k == "part":
        return judge_part(q, val, ref, dims)
    if k == "eq":
        want = vocabs_equal(q, c)
        return None if val == [want, want, not want] else f"gave {val}, expected {want}"
    if k == "containsall":
        want = q["as"] not in ("int", "none") and all(w in ref.index for w in q["items"])
        return None if val == [want, want] else f"gave {val}, expected {want}"
    if k == "meta":
        want = None if c.meta is None else repr(sorted(c.meta.items(), key=lambda kv: kv[0]))
        return None if val == want else f"gave {short(val)}, expected {short(want)}"
    if k == "ngram":
        return judge_ngram(q, val, c.vocab)
    if k == "vocabexplicit":
        return judge_explicit_vocab(val, ref)
    return judge_explicit(val, ref)


STORAGE_CLASS = {"nd": "NdArray", "pq": "QuantizedArray"}


def judge_part(q, val, ref, dims):
    kind = ref.c.storage.kind
    want = ref.rows[rows_key(q)]
    n = len(want)
    if val[:3] != [STORAGE_CLASS[kind], n, [n, dims]]:
        return f"the slice is {val[:3]}, expected {[STORAGE_CLASS[kind], n, [n, dims]]}"
    if val[3].dtype != np.float64:
        return f"an array of doubles was asked for, it is {val[3].dtype}"
    if len(val[4]) != n:
        return f"iteration of the slice gives {len(val[4])} rows, expected {n}"
    with np.errstate(over="ignore", invalid="ignore"):
        single = val[3].astype(np.float32)
    parts = [(single, want, "slice")] + [(np.asarray(a), w, "row of the slice") for a, w in zip(val[4], want)]
    if n:
        parts.append((np.asarray(val[5]), want[q["pick"] % n], "row of the slice"))
        parts.append((np.asarray(val[7]), want[::-1], "rows of the slice"))
    parts.append((np.asarray(val[6]), want[::2], "slice of the slice"))
    for a, w, what in parts:
        r = values(a, w, kind)
        if r:
            return f"{what}: {r}"
    return None


def judge_ngram(q, val, v):
    ng, bound = q["ng"], v.bound - len(v.words)
    if v.kind == "bucket":
        want = [model.fifu_hash(ng) & (2**v.buckets - 1)]
    elif v.kind == "fasttext":
        want = [model.ft_hash(ng) % v.buckets]
    else:
        table = dict(zip(v.ngrams, v.index))
        want = [table.get(ng)]
    want += [v.min_n, v.max_n, bound]
    if v.kind == "explicit":
        want += [ng in table, all(i in table for i in q["items"]), False, len(table), v.ngrams,
                 v.index[0] if v.ngrams else None]
    return None if val == want else f"gave {short(val)}, expected {short(want)}"


def judge_explicit_vocab(v, ref):
    """An explicit vocabulary that keeps the words and exactly their n-grams, merged as the buckets merge them."""
    c = ref.c.vocab
    if type(v).__name__ != "ExplicitVocab":
        return f"converted vocabulary is a {type(v).__name__}"
    want = {}
    for w in c.words:
        want.update(c.subword_indices(w))
    ind = v.subword_indexer
    got = dict(ind.ngram_index)
    if list(v.words) != c.words or (v.min_n, v.max_n) != (c.min_n, c.max_n):
        return f"converted words {short(list(v.words))} {v.min_n} {v.max_n}"
    if set(got) != set(want) or sorted(ind.ngrams) != sorted(want):
        return f"converted n-grams {short(sorted(got))}, expected {short(sorted(want))}"
    if sorted(set(got.values())) != list(range(len(set(want.values())))) or \
            len({(got[ng], want[ng]) for ng in want}) != len(set(want.values())):
        return "conversion merges or splits buckets"
    return None if v.upper_bound == len(c.words) + len(set(want.values())) else f"upper bound {v.upper_bound}"


def values(a, want, kind):
    if kind == "nd":
        return observe.bits(a, want.astype("<f4"), "result")
    return observe.close(a, want, "result", atol=1e-5 * (np.abs(want).max() if want.size else 1) + 1e-30)


def same_norm(a, b):
    return np.float32(a).tobytes() == np.float32(b).tobytes()


def vec_diff(a, ref, i, what):
    a = np.asarray(a)
    r = values(a, ref.rows[i], ref.c.storage.kind)
    return f"{what}: {r}" if r else None


def judge_vector(q, val, extra, ref, dims):
    k, w = q["q"], q["w"]
    out, whole = extra or (None, None)
    want = ref.embedding(w)
    norm = None
    if want is None:  # not getitem
        if not q["default"]:
            if val is not None:
                return f"gave {short(val)}, expected None"
            if whole is not None and not np.all(whole == FILL):
                return "out was written although there is no embedding and no default"
            return None
        if k == "norm":
            if not isinstance(val, tuple) or len(val) != 2 or val[1] != 12.0:
                return f"gave {short(val)}, expected the default"
            val = val[0]
        if out is not None and val is not out:
            return "did not return out"
        if not np.array_equal(val, default_vec(dims)):
            return f"gave {short(val)}, expected the default"
    else:
        vec, norm, degenerate = want
        if k == "norm":
            if not isinstance(val, tuple) or len(val) != 2:
                return f"gave {short(val)}"
            val, got = val
            tol = 1e-4 + 3e-5 * ref.spread(ref.idx(w))
            if not degenerate and not abs(float(got) - norm) <= tol * abs(norm) + 1e-30:
                return f"norm {got!r}, expected {norm!r}"
        if out is not None and val is not out:
            return "did not return out"
        if not isinstance(val, np.ndarray) or val.shape != (dims,):
            return f"gave {short(val)}"
        if not degenerate:
            i = ref.idx(w)
            if isinstance(i, int):
                r = vec_diff(val, ref, i, "vector")
            else:
                r = observe.close(val, vec, "vector", rtol=1e-3, atol=3e-5 * ref.spread(i))
            if r:
                return r
    if whole is not None and whole is not out:
        mask = np.ones(whole.shape, bool)
        if whole.ndim == 2:
            mask[1] = False
        else:
            mask[1::2][:dims] = False
        if not np.all(whole[mask] == FILL):
            return "memory around out was written"
    return None


def judge_similar(q, val, extra, ref):
    k, n = q["k"], len(ref.c.vocab.words)
    if k is None:  # as documented
        k = 1 if q["q"] == "analogy" else 10
    if q["q"] == "vecsim":
        vec = np.asarray(extra, dtype=np.float64)
        if not np.array_equal(extra, query_vec(q, len(extra))):
            return "the query vector was changed"
        skip = set(q.get("skip", ()))
        slack = 0.0
    else:
        ws = [q["w"]] if q["q"] == "similar" else q["ws"]
        parts = [ref.embedding(w) for w in ws]
        if any(p is None for p in parts):
            return None if val is None else f"gave {short(val)}, expected None"
        if any(p[2] for p in parts):
            return None
        slack = sum(3e-5 * ref.spread(ref.idx(w)) for w in ws if not isinstance(ref.idx(w), int))
        if q["q"] == "similar":
            vec, skip = parts[0][0], {q["w"]}
        else:
            a, b, c = (p[0] for p in parts)
            vec = c + (b - a)
            norm = np.sqrt((vec * vec).sum())
            big = max(np.abs(a).max(), np.abs(b).max(), np.abs(c).max())
            if not norm > 1e-3 * big:
                return None
            slack = (slack + 1e-6 * big) / norm
            vec = vec / norm
            skip = set(q["skip"]) if "skip" in q else set(ws)
    if val is None:
        return "gave None"
    sims = ref.sims(vec)
    tol = 1e-5 * (np.abs(ref.rows[:n]) @ np.abs(vec)) + slack * np.abs(ref.rows[:n]).sum(1) + 1e-30
    allowed = [i for i, w in enumerate(ref.c.vocab.words) if w not in skip]
    if len(val) != min(k, len(allowed)):
        return f"gave {len(val)} results, expected {min(k, len(allowed))} (k={k}, {len(allowed)} candidates)"
    seen = set()
    last = None
    for r in val:
        i = ref.index.get(r.word)
        if i is None or i in seen:
            return f"result {short(r.word)} is unknown or repeated"
        if i not in allowed:
            return f"result {short(r.word)} was to be left out"
        if not abs(float(r.similarity) - sims[i]) <= tol[i]:
            return f"similarity of {short(r.word)} is {r.similarity!r}, expected {sims[i]!r}"
        if last is not None and float(r.similarity) > last:
            return "results are not in descending order of similarity"
        last = float(r.similarity)
        seen.add(i)
    if val:
        low = min(sims[i] + tol[i] for i in seen)
        for i in allowed:
            if i not in seen and sims[i] - tol[i] > low:
                return f"{short(ref.c.vocab.words[i])} with similarity {sims[i]!r} is missing"
    return None


def judge_explicit(e, ref):
    """Embeddings with explicit n-grams that agree with the bucket embeddings on all they share."""
    if type(e.vocab).__name__ != "ExplicitVocab":
        return f"converted vocabulary is a {type(e.vocab).__name__}"
    return _judge_explicit(list(e.vocab.words), e.vocab.min_n, e.vocab.max_n, list(e.vocab.subword_indexer.ngrams),
                           dict(e.vocab.subword_indexer.ngram_index), e.storage.shape, np.asarray(e.storage), ref) \
        or observe.norms(e.norms, ref.c.norms)


def judge_explicit_content(c, ref):
    """The same for the content of a file."""
    v = c.vocab
    r = _judge_explicit(v.words, v.min_n, v.max_n, v.ngrams, dict(zip(v.ngrams, v.index)), c.storage.rows().shape,
                        c.storage.rows(), ref)
    if r:
        return r
    if (c.norms is None) != (ref.c.norms is None):
        return "norms appeared or are missing"
    if c.norms is not None:
        return observe.close(c.norms, ref.c.norms, "norms") if ref.c.storage.kind == "approx" else \
            observe.bits(c.norms, ref.c.norms.astype("<f4"), "norms")
    return None


def _judge_explicit(words, min_n, max_n, ngrams, got, shape, m, ref):
    c = ref.c
    n = len(c.vocab.words)
    if words != c.vocab.words:
        return f"converted words: {short(words)}"
    if (min_n, max_n) != (c.vocab.min_n, c.vocab.max_n):
        return f"converted n-gram range {(min_n, max_n)}"
    want = {}
    for w in c.vocab.words:
        want.update(c.vocab.subword_indices(w))
    if set(got) != set(want) or sorted(ngrams) != sorted(want):
        return f"converted n-grams {short(sorted(got))}, expected {short(sorted(want))}"
    if len(set(want.values())) != len(set(got.values())):
        return "conversion merges or splits buckets"
    if tuple(shape) != (n + len(set(want.values())), ref.rows.shape[1]):
        return f"converted storage has shape {shape}"
    r = values(m[:n], ref.rows[:n], c.storage.kind)
    if r:
        return "converted words: " + r
    for ng, bucket in want.items():
        r = values(m[n + got[ng]], ref.rows[bucket], c.storage.kind)
        if r:
            return f"converted n-gram {short(ng)}: " + r
    return None
