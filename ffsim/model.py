"""
The reference side of every oracle.  Nothing here imports finalfusion: contents
are plain Python / numpy values, and the file formats are encoded and decoded
from their published descriptions.
"""
import re
import struct

import numpy as np
import toml

MAGIC = b"FiFu"
SIMPLE, NDARRAY, BUCKET, PQARRAY, META, NORMS, FASTTEXT, EXPLICIT = 1, 2, 3, 4, 5, 6, 7, 8
VOCAB_IDS = {"simple": SIMPLE, "bucket": BUCKET, "fasttext": FASTTEXT, "explicit": EXPLICIT}
VOCAB_NAMES = {v: k for k, v in VOCAB_IDS.items()}


class Malformed(Exception):
    """The bytes are not a complete file of the format."""


class VocabC:
    """Content of a vocabulary."""
    def __init__(self, kind, words, min_n=None, max_n=None, buckets=None, ngrams=None, index=None):
        self.kind = kind
        self.words = list(words)
        self.min_n, self.max_n, self.buckets = min_n, max_n, buckets
        self.ngrams = None if ngrams is None else list(ngrams)
        self.index = None if index is None else list(index)

    def key(self):
        return (self.kind, tuple(self.words), self.min_n, self.max_n, self.buckets,
                None if self.ngrams is None else tuple(self.ngrams),
                None if self.index is None else tuple(self.index))

    def __eq__(self, other):
        return isinstance(other, VocabC) and self.key() == other.key()

    @property
    def bound(self):
        if self.kind == "simple":
            return len(self.words)
        if self.kind == "bucket":
            return len(self.words) + 2**self.buckets
        if self.kind == "fasttext":
            return len(self.words) + self.buckets
        return len(self.words) + (max(self.index) + 1 if self.index else 0)

    def subword_indices(self, word, bracket=True):
        if self.kind == "simple":
            return None
        offset = len(self.words)
        if bracket:
            word = "<" + word + ">"
        out = []
        table = dict(zip(self.ngrams, self.index)) if self.kind == "explicit" else None
        for ng in ngrams(word, self.min_n, self.max_n):
            if self.kind == "bucket":
                out.append((ng, (fifu_hash(ng) & (2**self.buckets - 1)) + offset))
            elif self.kind == "fasttext":
                out.append((ng, ft_hash(ng) % self.buckets + offset))
            elif ng in table:
                out.append((ng, table[ng] + offset))
        return out


class NdC:
    """Content of a plain matrix."""
    kind = "nd"

    def __init__(self, matrix):
        self.matrix = np.ascontiguousarray(matrix, dtype="<f4")

    def rows(self):
        return self.matrix

    def shape(self):
        return self.matrix.shape

    def __eq__(self, other):
        return isinstance(other, NdC) and self.matrix.shape == other.matrix.shape and \
            self.matrix.tobytes() == other.matrix.tobytes()


class PqC:
    """Content of a quantized matrix."""
    kind = "pq"

    def __init__(self, quantizers, projection, codes, norms):
        self.quantizers = np.ascontiguousarray(quantizers, dtype="<f4")
        self.projection = None if projection is None else np.ascontiguousarray(projection, dtype="<f4")
        self.codes = np.ascontiguousarray(codes, dtype="u1")
        self.norms = None if norms is None else np.ascontiguousarray(norms, dtype="<f4")
        self._rows = None

    def shape(self):
        return self.codes.shape[0], self.quantizers.shape[0] * self.quantizers.shape[2]

    def in_range(self):
        return not self.codes.size or self.codes.max() < self.quantizers.shape[1]

    def rows(self):
        if self._rows is None:
            q = self.quantizers.astype(np.float64)
            n, qlen = self.codes.shape
            rec = np.zeros((n, qlen * q.shape[2]))
            for i in range(n):
                for j in range(qlen):
                    rec[i, j * q.shape[2]:(j + 1) * q.shape[2]] = q[j, self.codes[i, j]]
            if self.projection is not None:
                rec = rec @ self.projection.astype(np.float64).T
            if self.norms is not None:
                rec = rec * self.norms.astype(np.float64)[:, None]
            self._rows = rec
        return self._rows

    def __eq__(self, other):
        def same(a, b):
            if a is None or b is None:
                return a is b
            return a.shape == b.shape and a.tobytes() == b.tobytes()
        return isinstance(other, PqC) and same(self.quantizers, other.quantizers) and \
            same(self.projection, other.projection) and same(self.codes, other.codes) and \
            same(self.norms, other.norms)


class Content:
    """Everything a set of embeddings consists of."""
    def __init__(self, vocab, storage, norms=None, meta=None):
        self.vocab = vocab
        self.storage = storage
        self.norms = None if norms is None else np.ascontiguousarray(norms, dtype="<f4")
        self.meta = meta

    def diff(self, other):
        if self.vocab != other.vocab:
            return f"vocabulary differs: {short(self.vocab.key())} / {short(other.vocab.key())}"
        if self.storage != other.storage:
            return "storage differs"
        if (self.norms is None) != (other.norms is None):
            return f"norms: {self.norms is not None} / {other.norms is not None}"
        if self.norms is not None and self.norms.tobytes() != other.norms.tobytes():
            return "norms differ"
        if self.meta != other.meta:
            return f"metadata differs: {short(self.meta)} / {short(other.meta)}"
        return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ---- subwords --------------------------------------------------------------------
def ngrams(word, min_n, max_n):
    out = []
    for start in range(len(word)):
        for n in range(min(max_n, len(word)), min_n - 1, -1):
            if start + n <= len(word):
                out.append(word[start:start + n])
    return out


def fifu_hash(ngram):
    data = struct.pack("<Q", len(ngram)) + b"".join(struct.pack("<I", ord(c)) for c in ngram)
    h = 0xcbf29ce484222325
    for b in data:
        h = ((h ^ b) * 0x100000001b3) & 0xffffffffffffffff
    return h


def ft_hash(ngram):
    h = 2166136261
    for b in ngram.encode("utf-8"):
        if b >= 128:
            b |= 0xffffff00
        h = ((h ^ b) * 16777619) & 0xffffffff
    return h


# ---- finalfusion --------------------------------------------------------------------
def _pad(pos):
    return 4 - pos % 4


def _items(words):
    return b"".join(struct.pack("<I", len(b)) + b for b in (w.encode("utf-8") for w in words))


def enc_vocab(v):
    if v.kind == "simple":
        body = struct.pack("<Q", len(v.words)) + _items(v.words)
    elif v.kind == "explicit":
        body = struct.pack("<QQII", len(v.words), len(v.ngrams), v.min_n, v.max_n) + _items(v.words)
        for ng, i in zip(v.ngrams, v.index):
            b = ng.encode("utf-8")
            body += struct.pack("<I", len(b)) + b + struct.pack("<Q", i)
    else:
        body = struct.pack("<QIII", len(v.words), v.min_n, v.max_n, v.buckets) + _items(v.words)
    return struct.pack("<IQ", VOCAB_IDS[v.kind], len(body)) + body


def enc_storage(s, pos):
    """`pos` is the file position where the chunk starts."""
    pad = _pad(pos + 4)
    if s.kind == "nd":
        body = struct.pack("<QII", s.matrix.shape[0], s.matrix.shape[1], 10) + b"\0" * pad
        body += s.matrix.tobytes()
        return struct.pack("<IQ", NDARRAY, len(body)) + body
    qlen, ncent, sub = s.quantizers.shape
    body = struct.pack("<IIIIIQII", s.projection is not None, s.norms is not None, qlen, qlen * sub,
                       ncent, s.codes.shape[0], 1, 10) + b"\0" * pad
    if s.projection is not None:
        body += s.projection.tobytes()
    body += s.quantizers.tobytes()
    if s.norms is not None:
        body += s.norms.tobytes()
    body += s.codes.tobytes()
    return struct.pack("<IQ", PQARRAY, len(body)) + body


def enc_norms(n, pos):
    pad = _pad(pos + 4)
    body = struct.pack("<QI", n.size, 10) + b"\0" * pad + n.tobytes()
    return struct.pack("<IQ", NORMS, len(body)) + body


def enc_meta(m):
    b = toml.dumps(m).encode("utf-8")
    return struct.pack("<IQ", META, len(b)) + b


def chunk_kinds(content):
    kinds = []
    if content.meta is not None:
        kinds.append("meta")
    kinds += ["vocab", "storage"]
    if content.norms is not None:
        kinds.append("norms")
    return kinds


def chunk_id(kind, content):
    if kind == "meta":
        return META
    if kind == "vocab":
        return VOCAB_IDS[content.vocab.kind]
    if kind == "storage":
        return NDARRAY if content.storage.kind == "nd" else PQARRAY
    return NORMS


def enc_finalfusion(content, kinds=None):
    """Encode the given chunk kinds, in order.  kinds: list of (kind, content) or kind."""
    items = [(k, content) if isinstance(k, str) else k for k in (kinds or chunk_kinds(content))]
    out = MAGIC + struct.pack("<II", 0, len(items))
    out += b"".join(struct.pack("<I", chunk_id(k, c)) for k, c in items)
    for kind, c in items:
        if kind == "meta":
            out += enc_meta(c.meta)
        elif kind == "vocab":
            out += enc_vocab(c.vocab)
        elif kind == "storage":
            out += enc_storage(c.storage, len(out))
        else:
            out += enc_norms(c.norms, len(out))
    return out


GIANT_IDS = {"nd": NDARRAY, "norms": NORMS, "pq": PQARRAY}


def giant_head(g, pos):
    """Beginning of a chunk that goes on with g["count"] * g["width"] bytes of zeros."""
    count, width, pad = g["count"], g["width"], b"\0" * _pad(pos + 4)
    if g["kind"] == "norms":
        body = struct.pack("<QI", count * width // 4, 10) + pad
    elif g["kind"] == "nd":
        body = struct.pack("<QII", count, width // 4, 10) + pad
    else:
        quant = g.get("quantizers", np.zeros((width, 1, 1), "<f4"))
        body = struct.pack("<IIIIIQII", 0, 0, width, width, quant.shape[1], count, 1, 10) + pad
        body += quant.tobytes()
    return struct.pack("<IQ", GIANT_IDS[g["kind"]], len(body) + count * width) + body


def enc_sparse(items):
    """
    Pieces (position, bytes) of a file whose chunks may include ("giant", g), with the positions
    of all chunks and the size of the file.
    """
    out = MAGIC + struct.pack("<II", 0, len(items))
    out += b"".join(struct.pack("<I", GIANT_IDS[c["kind"]] if k == "giant" else chunk_id(k, c)) for k, c in items)
    pieces, offsets, pos = [(0, out)], [], len(out)
    for kind, c in items:
        offsets.append(pos)
        if kind == "giant":
            b = giant_head(c, pos)
            skip = c["count"] * c["width"]
        else:
            b = enc_meta(c.meta) if kind == "meta" else enc_vocab(c.vocab) if kind == "vocab" else \
                enc_storage(c.storage, pos) if kind == "storage" else enc_norms(c.norms, pos)
            skip = 0
        pieces.append((pos, b))
        pos += len(b) + skip
        if skip:  # where a length of 31 or 32 bits would lead: zeros could be taken for empty chunks
            pieces += [(pos - n, b"\xff" * 64) for n in (2**31, 2**32, 2**32 + 2**31) if n < skip]
    return pieces, offsets, pos


class _Cursor:
    loose = False

    def __init__(self, data, pos=0, end=None):
        self.data, self.pos, self.end = data, pos, len(data) if end is None else end

    def take(self, n):
        if n < 0 or self.pos + n > self.end:
            raise Malformed(f"needs {n} bytes at {self.pos}, {self.end - self.pos} left")
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def pad(self):
        n = _pad(self.pos)
        if self.loose:  # padding in front of nothing may be missing
            n = min(n, self.end - self.pos)
        self.take(n)

    def unpack(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))

    def array(self, dtype, shape):
        n = 1
        for d in shape:
            n *= d
        try:
            return np.frombuffer(self.take(n * np.dtype(dtype).itemsize), dtype=dtype).reshape(shape)
        except (ValueError, OverflowError) as e:
            raise Malformed(str(e))

    def item(self):
        n, = self.unpack("<I")
        try:
            return self.take(n).decode("utf-8")
        except UnicodeDecodeError as e:
            raise Malformed(str(e))


def dec_chunks(data):
    """[(id, decoded)] of a finalfusion file; Malformed unless it is complete and consistent."""
    c = _Cursor(data)
    if c.take(4) != MAGIC:
        raise Malformed("magic")
    version, n = c.unpack("<II")
    if version != 0:
        raise Malformed("version")
    ids = list(c.unpack(f"<{n}I"))
    out = []
    for cid in ids:
        got, size = c.unpack("<IQ")
        if got != cid:
            raise Malformed(f"chunk {got} where the header announces {cid}")
        if c.pos + size > len(data):
            raise Malformed("chunk runs past the end")
        b = _Cursor(data, c.pos, c.pos + size)
        out.append((cid, _dec_chunk(cid, b)))
        if b.pos != b.end:
            raise Malformed(f"chunk {cid}: stated length {size}, used {b.pos - c.pos}")
        c.pos = b.end
    if c.pos != len(data):
        raise Malformed("trailing bytes")
    return out


def _dec_chunk(cid, b):
    if cid == META:
        try:
            return toml.loads(b.take(b.end - b.pos).decode("utf-8"))
        except (ValueError, IndexError) as e:
            raise Malformed(str(e))
    if cid == SIMPLE:
        n, = b.unpack("<Q")
        return VocabC("simple", [b.item() for _ in range(n)])
    if cid in (BUCKET, FASTTEXT):
        n, min_n, max_n, buckets = b.unpack("<QIII")
        return VocabC(VOCAB_NAMES[cid], [b.item() for _ in range(n)], min_n, max_n, buckets)
    if cid == EXPLICIT:
        n, m, min_n, max_n = b.unpack("<QQII")
        words = [b.item() for _ in range(n)]
        ng, idx = [], []
        for _ in range(m):
            ng.append(b.item())
            idx.append(b.unpack("<Q")[0])
        return VocabC("explicit", words, min_n, max_n, None, ng, idx)
    if cid == NDARRAY:
        rows, cols, tid = b.unpack("<QII")
        if tid != 10:
            raise Malformed("type")
        b.pad()
        return NdC(b.array("<f4", (rows, cols)))
    if cid == PQARRAY:
        proj, norms, qlen, rlen, ncent, n, t1, t2 = b.unpack("<IIIIIQII")
        if (t1, t2) != (1, 10) or qlen == 0 or rlen % qlen:
            raise Malformed("quantized header")
        b.pad()
        projection = b.array("<f4", (rlen, rlen)) if proj else None
        quantizers = b.array("<f4", (qlen, ncent, rlen // qlen))
        nrm = b.array("<f4", (n,)) if norms else None
        return PqC(quantizers, projection, b.array("u1", (n, qlen)), nrm)
    if cid == NORMS:
        n, tid = b.unpack("<QI")
        if tid != 10:
            raise Malformed("type")
        b.pad()
        return b.array("<f4", (n,))
    raise Malformed(f"unknown chunk {cid}")


def dec_finalfusion(data):
    """Content of a complete embeddings file."""
    chunks = dec_chunks(data)
    meta = norms = None
    if chunks and chunks[0][0] == META:
        meta = chunks.pop(0)[1]
    if len(chunks) < 2 or not isinstance(chunks[0][1], VocabC) or \
            not isinstance(chunks[1][1], (NdC, PqC)):
        raise Malformed("vocabulary and storage expected")
    vocab, storage = chunks[0][1], chunks[1][1]
    rest = chunks[2:]
    if rest:
        if len(rest) > 1 or rest[0][0] != NORMS:
            raise Malformed("only norms may follow the storage")
        norms = rest[0][1]
    return Content(vocab, storage, norms, meta)


# -- what a file says, for a reader that goes by the contents and not by the stated lengths ------
def _head(data):
    c = _Cursor(data)
    if c.take(4) != MAGIC:
        raise Malformed("magic")
    version, n = c.unpack("<II")
    if version != 0:
        raise Malformed("version")
    if c.pos + 4 * n > len(data):
        raise Malformed("header is cut off")
    return c, list(c.unpack(f"<{n}I"))


def _loose_chunk(c):
    """(id, decoded) of the next chunk, whatever length it states (metadata: exactly that length)."""
    cid, size = c.unpack("<IQ")
    if cid == META:
        b = _Cursor(c.data, c.pos, c.pos + size)
        if b.end > len(c.data):
            raise Malformed("metadata is cut off")
        out = _dec_chunk(cid, b)
        c.pos = b.end
        return cid, out
    return cid, _checked(_dec_chunk(cid, c))


def _checked(x):
    """A vocabulary must be usable."""
    if isinstance(x, VocabC):
        _dup(x.words)
        if x.kind != "simple" and not x.max_n >= x.min_n > 0:
            raise Malformed("n-gram range")
        if x.kind == "bucket" and not 0 < x.buckets < 64 or x.kind == "fasttext" and not x.buckets > 0:
            raise Malformed("buckets")
        if x.kind == "explicit":
            _dup(x.ngrams)
            if x.index and max(x.index) + 1 != len(set(x.index)):
                raise Malformed("n-gram indices")
    return x


def loose_finalfusion(data):
    """Content of a file by its bytes, in the order metadata, vocabulary, storage, norms."""
    c, ids = _head(data)
    c.loose = True
    meta = norms = None
    cid, x = _loose_chunk(c)
    if cid == META:
        meta = x
        cid, x = _loose_chunk(c)
    if not isinstance(x, VocabC):
        raise Malformed("vocabulary expected")
    vocab = x
    cid, storage = _loose_chunk(c)
    if not isinstance(storage, (NdC, PqC)):
        raise Malformed("storage expected")
    if c.pos < len(data):
        cid, norms = _loose_chunk(c)
        if cid != NORMS:
            raise Malformed("norms expected")
    elif NORMS in ids:
        raise Malformed("announced norms are missing")
    if vocab.bound != storage.shape()[0]:
        raise Malformed("vocabulary and storage do not fit")
    if norms is not None and len(norms) != len(vocab.words):
        raise Malformed("vocabulary and norms do not fit")
    return Content(vocab, storage, norms, meta)


def loose_component(data, ids):
    """The first chunk with one of the ids, skipping others by their stated length."""
    c, _ = _head(data)
    c.loose = True
    while True:
        at = c.pos
        cid, size = c.unpack("<IQ")
        if not 1 <= cid <= 8 and cid:
            raise Malformed(f"unknown chunk {cid}")
        if cid in ids:
            c.pos = at
            return _loose_chunk(c)[1]
        if c.pos + size > len(data):
            raise Malformed("not found")
        c.pos += size


def chunk_offsets(data):
    """Where each chunk of a complete finalfusion file starts (and the end)."""
    c = _Cursor(data)
    c.take(4)
    _, n = c.unpack("<II")
    c.unpack(f"<{n}I")
    out = []
    while c.pos < len(data):
        out.append(c.pos)
        _, size = c.unpack("<IQ")
        c.take(size)
    return out + [c.pos]


# ---- the other formats ----------------------------------------------------------------
class Raw:
    """What a non-finalfusion file says: words and un-normalised vectors."""
    def __init__(self, words, matrix, ft=None):
        self.words = words
        self.matrix = matrix
        self.ft = ft  # dict(buckets, min_n, max_n, full matrix)


def _dup(words):
    if len(set(words)) != len(words):
        raise Malformed("duplicate word")


def parse_word2vec(data, errors="strict"):
    nl = data.find(b"\n")
    if nl < 0:  # a file may end with its last line
        nl = len(data)
    try:
        rows, cols = map(int, data[:nl].decode("ascii").split())
    except ValueError as e:
        raise Malformed(str(e))
    if rows < 0 or cols < 0:
        raise Malformed("negative shape")
    pos = nl + 1
    words, vecs = [], []
    for _ in range(rows):
        sp = data.find(b" ", pos)
        if sp < 0:
            raise Malformed("word not terminated")
        try:
            words.append(data[pos:sp].decode("utf-8", errors).strip(" \t\n\r\x0b\x0c"))
        except UnicodeDecodeError as e:
            raise Malformed(str(e))
        pos = sp + 1
        if pos + 4 * cols > len(data):
            raise Malformed("vector is cut off")
        vecs.append(np.frombuffer(data[pos:pos + 4 * cols], dtype="<f4"))
        pos += 4 * cols
    _dup(words)
    return Raw(words, np.array(vecs, dtype=np.float32).reshape(rows, cols))


_WS = re.compile(r"[ \t\n\r\f\v]+")


def _lines(data, errors):
    try:
        text = data.decode("utf-8", errors)
    except UnicodeDecodeError as e:
        raise Malformed(str(e))
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return lines


def _text_rows(lines, rows, cols):
    if len(lines) < rows:
        raise Malformed("missing rows")
    words, vecs = [], []
    for line in lines[:rows]:
        parts = _WS.split(line.rstrip())
        words.append(parts[0])
        if len(parts) - 1 != cols:
            raise Malformed(f"{len(parts) - 1} components, expected {cols}")
        try:
            vecs.append([np.float32(float(p)) for p in parts[1:]])
        except ValueError as e:
            raise Malformed(str(e))
    _dup(words)
    return Raw(words, np.array(vecs, dtype=np.float32).reshape(rows, cols))


def parse_textdims(data, errors="strict"):
    lines = _lines(data, errors)
    if not lines:
        raise Malformed("empty")
    try:
        rows, cols = map(int, lines[0].split())
    except ValueError as e:
        raise Malformed(str(e))
    if rows < 0 or cols < 0:
        raise Malformed("negative shape")
    return _text_rows(lines[1:], rows, cols)


def parse_text(data, errors="strict"):
    lines = _lines(data, errors)
    if not lines:
        raise Malformed("empty")
    cols = len(_WS.split(lines[0].rstrip())) - 1
    return _text_rows(lines, len(lines), cols)


def parse_fasttext(data, errors="strict"):
    c = _Cursor(data)
    magic, version = c.unpack("<ii")
    if magic != 793712314 or version != 12:
        raise Malformed("magic")
    cfg = c.unpack("<12id")
    dims, buckets, min_n, max_n = cfg[0], cfg[8], cfg[9], cfg[10]
    n, _, labels = c.unpack("<iii")
    c.unpack("<q")
    prune, = c.unpack("<q")
    if labels or prune >= 0:
        raise Malformed("labels / pruned")
    words = []
    for _ in range(n):
        end = data.find(b"\0", c.pos)
        if end < 0:
            raise Malformed("word not terminated")
        try:
            words.append(data[c.pos:end].decode("utf-8", errors))
        except UnicodeDecodeError as e:
            raise Malformed(str(e))
        c.pos = end + 1
        _, kind = c.unpack("<qb")
        if kind:
            raise Malformed("not a word")
    if c.unpack("<?")[0]:
        raise Malformed("quantized")
    rows, cols = c.unpack("<qq")
    if rows < 0 or cols < 0:
        raise Malformed("negative shape")
    matrix = c.array("<f4", (rows, cols)).astype(np.float64)
    _dup(words)
    if rows != n + buckets or not max_n >= min_n > 0 or buckets <= 0:
        raise Malformed("shape")
    vocab = VocabC("fasttext", words, min_n, max_n, buckets)
    vecs = matrix[:n].copy()
    for i, w in enumerate(words):
        idx = [i] + [k for _, k in vocab.subword_indices(w)]
        # the loader precomputes word by word; subword rows lie behind the words
        vecs[i] = matrix[idx].mean(0)
    return Raw(words, vecs, {"vocab": vocab, "buckets": matrix[n:], "matrix": matrix, "dims": dims, "cfg": cfg,
                             "end": c.pos})


PARSERS = {"word2vec": parse_word2vec, "text": parse_text, "textdims": parse_textdims,
           "fasttext": parse_fasttext}


# ---- queries ----------------------------------------------------------------------------
class Queries:
    """Reference answers of read-only queries in double precision."""
    def __init__(self, content):
        self.c = content
        self.rows = content.storage.rows().astype(np.float64)
        self.index = {w: i for i, w in enumerate(content.vocab.words)}

    def idx(self, word):
        i = self.index.get(word)
        if i is not None:
            return i
        sub = self.c.vocab.subword_indices(word)
        if not sub:
            return None
        return [k for _, k in sub]

    def embedding(self, word):
        """None, or (vector, norm or None, degenerate)."""
        i = self.idx(word)
        if i is None:
            return None
        if isinstance(i, int):
            norm = None if self.c.norms is None else float(self.c.norms[i])
            return self.rows[i], norm, False
        total = self.rows[i].sum(0)
        size = np.abs(self.rows[i]).sum()
        norm = float(np.sqrt((total * total).sum()))
        if not norm > 1e-4 * size:
            return total, norm, True
        return total / norm, norm, False

    def spread(self, idx):
        """Size of rounding errors of a normalised sum of rows, in units of 1 / epsilon."""
        if isinstance(idx, int):
            return 0.0
        total = self.rows[idx].sum(0)
        norm = float(np.sqrt((total * total).sum()))
        many = max(1.0, len(idx) / 250)  # a sum of n single-precision numbers is off by up to n epsilons
        return many * float(np.abs(self.rows[idx]).sum(0).max()) / norm if norm else many

    def sims(self, vec):
        return self.rows[:len(self.c.vocab.words)] @ vec
