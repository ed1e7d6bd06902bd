"""
Reference encoders of the non-finalfusion formats, and the comparison of loaded
embeddings with what a file says.
"""
import struct

import numpy as np

from ffsim import gen, model, observe
from ffsim.model import short

FORMATS = ["word2vec", "text", "textdims", "fasttext"]


def gen_compat_spec(rng, fmt, extreme=True, **kw):
    """Embeddings that the format can express."""
    kw.setdefault("special", False)
    kw.setdefault("odd", False)
    kw.setdefault("zero_norms", True)
    spec = _gen_compat_spec(rng, fmt, **kw)
    if rng.random() < 0.02 and extreme:  # squares of the components over- or underflow in single precision
        spec["storage"]["scale"] = rng.choice([1e-25, 1e25])
        spec["storage"].pop("normalized", None)
    return spec


def _gen_compat_spec(rng, fmt, **kw):
    if fmt == "fasttext":
        return gen.gen_spec(rng, "fasttext", "nd", **kw)
    if fmt == "text":
        kw.setdefault("minwords", 1)
    # layouts in which numpy cannot reconstruct quantized rows are not of interest here
    kw.setdefault("layouts", ["C", "C", "slice", "ro"])
    return gen.gen_spec(rng, **kw)


def vectors(content):
    """The un-normalised vector of each word, in double precision."""
    n = len(content.vocab.words)
    rows = np.asarray(content.storage.rows(), dtype=np.float64)[:n]
    if content.norms is not None:
        rows = rows * content.norms.astype(np.float64)[:, None]
    return rows


def fmt_float(x, style):
    x = np.float32(x)
    if style == 0:
        return str(x)
    if style == 1:
        return "%.9g" % x
    if style == 2:
        return "%.12e" % x
    return repr(float(x))


# characters that stand for malformed UTF-8 in the words of a generated file
BAD = {"\ue001": b"\xff", "\ue002": b"\xe6\x97", "\ue003": b"\xc3", "\ue004": b"\xed\xa0\x80", "\ue005": b"\xf0\x9f\x99",
       "\ue006": b"\xc0\x80", "\ue007": b"\x80"}


def word_bytes(word):
    data = word.encode()
    for ch, raw in BAD.items():
        data = data.replace(ch.encode(), raw)
    return data


def encode(fmt, content, style):
    """
    A file as other programs write it.  style: {"nl": bool, "sep": str, "eol": str,
    "trail": str, "num": int, "last": bool}
    """
    words = content.vocab.words
    vecs = vectors(content).astype("<f4")
    if fmt == "word2vec":
        out = [f"{vecs.shape[0]} {vecs.shape[1]}\n".encode()]
        for w, v in zip(words, vecs):
            out.append(word_bytes(w) + b" " + v.tobytes() + (b"\n" if style["nl"] else b""))
        return b"".join(out)
    if fmt in ("text", "textdims"):
        lines = []
        if fmt == "textdims":
            lines.append(f"{vecs.shape[0]}{style['sep']}{vecs.shape[1]}")
        for w, v in zip(words, vecs):
            lines.append(w + style["sep"] + style["sep"].join(fmt_float(x, style["num"]) for x in v) + style["trail"])
        text = style["eol"].join(lines)
        if style["last"] and lines:
            text += style["eol"]
        return word_bytes(text)
    v = content.vocab
    out = [struct.pack("<ii", 793712314, 12),
           struct.pack("<12id", vecs.shape[1], 5, 3, 1, 5, 1, 1 + style["num"] % 3, 1 + style["num"] % 2,
                       v.buckets, v.min_n, v.max_n, 100, 1e-4),
           struct.pack("<iiiqq", len(words), len(words), 0, 1000, -1)]
    for w in words:
        out.append(word_bytes(w) + b"\0" + struct.pack("<qb", 7, 0))
    m = np.asarray(content.storage.rows(), dtype="<f4")
    out.append(struct.pack("<?qq", 0, *m.shape) + m.tobytes())
    if style["nl"]:  # the output matrix of a real model follows
        out.append(struct.pack("<?qq", 0, len(words), vecs.shape[1]) + m[:len(words)].tobytes())
    return b"".join(out)


def gen_style(rng):
    return {"nl": rng.random() < 0.6, "sep": rng.choice([" ", " ", " ", "\t", "  ", " \t "]),
            "eol": rng.choice(["\n", "\n", "\n", "\r\n"]), "trail": rng.choice(["", "", " ", "\t "]),
            "num": rng.randrange(4), "last": rng.random() < 0.8}


def diff(emb, raw, damaged=False):
    """Loaded embeddings against model.Raw."""
    if raw.ft is None:
        want = model.VocabC("simple", raw.words)
    else:
        want = raw.ft["vocab"]
    r = observe.vocab(emb.vocab, want)
    if r:
        return r
    n = len(raw.words)
    if type(emb.storage).__name__ != "NdArray":
        return f"storage is a {type(emb.storage).__name__}"
    m = np.asarray(emb.storage)
    if m.dtype != np.float32 or m.ndim != 2:
        return f"matrix is {m.ndim}-d {m.dtype}"
    total = n + (0 if raw.ft is None else raw.ft["buckets"].shape[0])
    if m.shape != (total, raw.matrix.shape[1]):
        return f"matrix has shape {m.shape}, expected {(total, raw.matrix.shape[1])}"
    if emb.norms is None or type(emb.norms).__name__ != "Norms" or emb.norms.shape != (n,):
        return "norms are missing or have the wrong shape"
    rows = raw.matrix.astype(np.float64)
    norms = np.sqrt((rows * rows).sum(1))
    got = np.asarray(emb.norms, dtype=np.float64)
    for i in range(n):
        scale = float(np.abs(rows[i]).max()) if rows.shape[1] else 0.0
        if raw.ft is not None:
            # averaging happens in single precision
            scale = max(scale, raw.ft["scale"][i])
        if not np.isfinite(norms[i]) or norms[i] > 1e37 or 0 < norms[i] < 1e-36:
            continue
        if not abs(got[i] - norms[i]) <= 1e-5 * norms[i] + 1e-5 * scale:
            return f"norm of {short(raw.words[i])} is {got[i]!r}, expected {norms[i]!r}"
        if norms[i] == 0:
            if raw.ft is None and np.any(m[i] != 0):
                return f"vector of {short(raw.words[i])} is {short(m[i].tolist())}, but the file says zero"
            continue
        back = m[i].astype(np.float64) * got[i]
        tol = 2e-6 * np.abs(rows[i]) + 2e-6 * norms[i] + 2e-6 * scale
        if not np.all(np.abs(back - rows[i]) <= tol):
            return f"vector of {short(raw.words[i])} is {short(back.tolist())}, expected {short(rows[i].tolist())}"
        length = float(np.sqrt((m[i].astype(np.float64)**2).sum()))
        if norms[i] > 1e-4 * scale and abs(length - 1) > 1e-4:
            return f"vector of {short(raw.words[i])} is not normalised: length {length}"
    if raw.ft is not None:
        r = observe.bits(m[n:], raw.ft["buckets"].astype("<f4"), "subword rows")
        if r:
            return r
        return None if damaged else observe.meta(emb.metadata, ft_meta(raw.ft["cfg"]))
    if emb.metadata is not None:
        return f"metadata {short(emb.metadata)} out of nowhere"
    return None


def ft_meta(cfg):
    """The training configuration that a fastText file states."""
    out = dict(zip(["dims", "window_size", "epoch", "min_count", "ns", "word_ngrams", "loss", "model", "buckets", "min_n",
                    "max_n", "lr_update_rate", "sampling_threshold"], cfg))
    out["loss"] = ["HierarchicalSoftmax", "NegativeSampling", "Softmax"][cfg[6] - 1]
    out["model"] = ["CBOW", "SkipGram", "Supervised"][cfg[7] - 1]
    return out


def parse(fmt, data, lossy=False):
    raw = model.PARSERS[fmt](data, "replace" if lossy else "strict")
    if raw.ft is not None:
        m = raw.ft["matrix"]
        v = raw.ft["vocab"]
        raw.ft["scale"] = []
        for i, w in enumerate(raw.words):
            idx = [i] + [k for _, k in v.subword_indices(w)]
            # adding up many vectors in single precision loses digits
            raw.ft["scale"].append(float(np.abs(m[idx]).max()) * max(1, len(idx) / 10) if m.shape[1] else 0.0)
    return raw
