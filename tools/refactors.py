"""
Edits of /repo that keep its behaviour (run by hand, by no check): every check has to stay quiet on each of them.

  refactors.py OUT.log [NAME...] [--runs FRACTION]
"""
import argparse
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}

R["io-readinto"] = [("io.py", '''    size = struct.calcsize(struct_fmt)
    buf = file.read(size)
    if len(buf) == 0:
        return None
    if len(buf) != size:
        raise FinalfusionFormatError(f'Could not read {size} bytes from file')
    return struct.unpack(struct_fmt, buf)
''', '''    fmt = struct.Struct(struct_fmt)
    buf = bytearray(fmt.size)
    got = file.readinto(buf)
    if not got:
        return None
    if got < fmt.size:
        raise FinalfusionFormatError(
            f'Could not read {fmt.size} bytes from file')
    return fmt.unpack(buf)
'''), ("io.py", '''    array = np.fromfile(file=file, count=count, dtype=dtype)
    if array.size != count:
        raise FinalfusionFormatError(f'Could not read {count} items from file')
''', '''    data = file.read(count * np.dtype(dtype).itemsize)
    array = np.frombuffer(bytearray(data), dtype=dtype) if len(data) % np.dtype(dtype).itemsize == 0 else np.empty(0)
    if array.size != count:
        raise FinalfusionFormatError(f'Could not read {count} items from file')
''')]

R["io-bytes"] = [("io.py", '''    if array_is_le:
        _write_array(file, array)
    else:
        if array.ndim == 2:
            for row in array:
                _write_array(file, row.byteswap(inplace=False))
        else:
            _write_array(file, array.byteswap(inplace=False))
''', '''    _write_array(file, array if array_is_le else array.byteswap())
'''), ("io.py", '''    if array.ndim == 2 and not array.flags.c_contiguous:
        for row in array:
            file.write(np.ascontiguousarray(row).data)
    else:
        file.write(np.ascontiguousarray(array).data)
''', '''    view = memoryview(np.asarray(array).tobytes(order="C"))
    step = 1000
    for start in range(0, len(view), step):
        file.write(view[start:start + step])
''')]

R["find-chunk"] = [("io.py", '''    file.seek(0)
    Header.read_chunk(file)
    while True:
        chunk_header = _read_chunk_header(file)
        if chunk_header is None:
            return None
        chunk_id, chunk_size = chunk_header
        if chunk_id in chunks:
            return chunk_id
        file.seek(chunk_size, 1)
''', '''    wanted = frozenset(chunks)
    file.seek(0)
    Header.read_chunk(file)
    chunk_header = _read_chunk_header(file)
    while chunk_header is not None:
        if chunk_header[0] in wanted:
            return chunk_header[0]
        file.seek(file.tell() + chunk_header[1])
        chunk_header = _read_chunk_header(file)
    return None
''')]

R["load-table"] = [("embeddings.py", '''        if chunk_id == ChunkIdentifier.SimpleVocab:
            vocab = SimpleVocab.read_chunk(inf)  # type: Vocab
        elif chunk_id == ChunkIdentifier.BucketSubwordVocab:
            vocab = FinalfusionBucketVocab.read_chunk(inf)
        elif chunk_id == ChunkIdentifier.FastTextSubwordVocab:
            vocab = FastTextVocab.read_chunk(inf)
        elif chunk_id == ChunkIdentifier.ExplicitSubwordVocab:
            vocab = ExplicitVocab.read_chunk(inf)
        else:
            raise FinalfusionFormatError(
                f'Expected vocab chunk, not {str(chunk_id)}')
''', '''        for kind in (ExplicitVocab, FastTextVocab, FinalfusionBucketVocab,
                     SimpleVocab):
            if kind.chunk_identifier() == chunk_id:
                vocab = kind.read_chunk(inf)
                break
        else:
            raise FinalfusionFormatError(
                f'Expected vocab chunk, not {str(chunk_id)}')
'''), ("embeddings.py", '''    def __init__(  # pylint: disable=too-many-arguments
            self,
            storage: Storage,
''', '''    @classmethod
    def _assemble(cls, parts, origin):
        return cls(*parts, origin=origin)

    def __init__(  # pylint: disable=too-many-arguments
            self,
            storage: Storage,
'''), ("embeddings.py", '''        return Embeddings(storage, vocab, norms, metadata, inf.name)
''', '''        name = inf.name
    parts = [storage, vocab, norms, metadata]
    return Embeddings._assemble(parts, name)
''')]

R["similarity"] = [("embeddings.py", '''        heap = []  # type: List[SimilarityResult]
''', '''        order = sorted((idx for idx in partition if idx not in skip_indices),
                       key=lambda idx: -sims[idx])
        if not any(np.isnan(sims)):
            return [
                SimilarityResult(self.vocab.words[idx], sims[idx])
                for idx in order[:max(k, 0)]
            ]
        heap = []  # type: List[SimilarityResult]
'''), ("embeddings.py", '''        embed_a = self.embedding(word1)
        embed_b = self.embedding(word2)
        embed_c = self.embedding(word3)
        if embed_a is None or embed_b is None or embed_c is None:
            return None
''', '''        queries = [self.embedding(word) for word in (word1, word2, word3)]
        for query in queries:
            if query is None:
                return None
        embed_a, embed_b, embed_c = queries
''')]

R["embedding"] = [("embeddings.py", '''        res = self._storage[idx]  # type: np.ndarray
        if res.ndim == 1:
            if out is not None:
                out[:] = res
            else:
                out = res
            if self._norms is not None:
                norm = self._norms[idx]  # type: Optional[float]
            else:
                norm = None
        else:
            out = np.add.reduce(res, 0, out=out, keepdims=False)
            norm = np.linalg.norm(out)
            out /= norm
        return out, norm
''', '''        if isinstance(idx, list):
            return self._subword_embedding(idx, out)
        res = self._storage[idx]
        norm = None if self._norms is None else self._norms[idx]
        if out is None:
            return res, norm
        out[:] = res
        return out, norm

    def _subword_embedding(self, indices, out):
        rows = self._storage[indices]
        total = rows.sum(axis=0, out=out)
        norm = np.sqrt((total * total).sum())
        np.divide(total, norm, out=total)
        return total, norm
''')]

R["lazy-index"] = [("vocab/simple_vocab.py", '''        self._index = _validate_items_and_create_index(words)
        self._words = words
''', '''        self._words = words
        self._index = None
        self._index = self.word_index
'''), ("vocab/simple_vocab.py", '''        return self._index
''', '''        index = self._index
        if index is None:
            index = _validate_items_and_create_index(self._words)
        return index
'''), ("vocab/vocab.py", '''    for _ in range(length):
        items.append(_read_item(file))
    return items
''', '''    while len(items) < length:
        items += [_read_item(file)]
    return items
''')]

R["mmap"] = [("storage/ndarray.py", '''        array = np.memmap(file,
                          dtype='<f4',
                          mode='r',
                          offset=offset,
                          shape=(rows, cols))
        file.seek(offset + rows * cols * struct.calcsize('f'))
''', '''        nbytes = rows * cols * struct.calcsize('f')
        file.seek(0, 2)
        if file.tell() < offset + nbytes:
            raise ValueError('mmap length is greater than file size')
        mapped = mmap_module.mmap(file.fileno(), offset + nbytes, access=mmap_module.ACCESS_READ)
        array = np.frombuffer(mapped, dtype='<f4', count=rows * cols, offset=offset).reshape(rows, cols)
        file.seek(offset + nbytes)
'''), ("storage/ndarray.py", "import struct\n", "import mmap as mmap_module\nimport struct\n")]

R["text"] = [("compat/text.py", '''    words = []
    matrix = np.zeros((rows, cols), dtype=np.float32)
    for row, line in zip(matrix, file):
        parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
        words.append(parts[0])
        if len(parts) - 1 != cols:
            raise ValueError(
                f'Expected {cols} components for {parts[0]}, not {len(parts) - 1}'
            )
        row[:] = parts[1:]
''', '''    words = []
    matrix = np.zeros((rows, cols), dtype=np.float32)
    for idx in range(rows):
        line = file.readline()
        if not line:
            break
        word, *components = _ASCII_WHITESPACE_PAT.split(line.rstrip())
        if len(components) != cols:
            raise ValueError(
                f'Expected {cols} components for {word}, not {len(components)}'
            )
        words.append(word)
        matrix[idx] = [np.float32(x) for x in components]
'''), ("compat/text.py", '''            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
''', '''            outf.writelines([word, sep, " ".join(str(x) for x in row), "\\n"])
''')]

R["word2vec"] = [("compat/word2vec.py", '''    word = []
    while True:
        byte = inf.read(1)
        if byte == delim:
            break
        if byte == b'':
            raise EOFError
        word.append(byte)
    return b''.join(word).decode('utf-8',
                                 errors='replace' if lossy else 'strict')
''', '''    word = bytearray()
    byte = inf.read(1)
    while byte != delim:
        if not byte:
            raise EOFError
        word += byte
        byte = inf.read(1)
    return str(word, 'utf-8', 'replace' if lossy else 'strict')
'''), ("compat/word2vec.py", '''            array = np.fromfile(file=inf, count=cols, dtype=np.float32)
''', '''            array = inf.read(4 * cols)
            array = np.frombuffer(array[:len(array) // 4 * 4], dtype="<f4")
'''), ("compat/word2vec.py", '''            b_word = word.encode('utf-8')
            outf.write(b_word)
            outf.write(b' ')
            _serialize_array_as_le(outf, row)
            outf.write(b'\\n')
''', '''            outf.write(b'%s %s\\n' % (word.encode('utf-8'), row.astype('<f4').tobytes()))
''')]

R["fasttext"] = [("compat/fasttext.py", '''    for i, word in enumerate(vocab):
        indices = [i]
        if isinstance(vocab, FastTextVocab):
            subword_indices = cast(
                List[int], vocab.subword_indices(word, with_ngrams=False))
            indices += subword_indices
        matrix[i] = matrix[indices].mean(0, keepdims=False)
''', '''    for i, word in enumerate(vocab.words):
        indices = [i] + cast(List[int], vocab.subword_indices(word))
        matrix[i] = matrix[indices].sum(0) / np.float32(len(indices))
'''), ("compat/fasttext.py", '''        embed = storage[i]  # type: np.ndarray
        embed = embed * (len(indices) + 1)
        if norms is not None:
            embed *= norms[i]
        sw_embeds = storage[indices]  # type: np.ndarray
        embed -= sw_embeds.sum(0, keepdims=False)
        _serialize_array_as_le(outf, embed)
''', '''        scale = 1 if norms is None else norms[i]
        restored = storage[i] * np.float32(scale) * np.float32(len(indices) + 1)
        restored = restored - storage[indices].sum(axis=0)
        _serialize_array_as_le(outf, restored)
''')]

R["scripts"] = [("scripts/similar.py", '''    with open(args.input) as queries:
        for query in queries:
            query = query.strip()
            if not query:
                continue
            res = embeds.word_similarity(query, k=args.k)
            if res is None:
                print(f"Could not compute neighbours for: {query}",
                      file=sys.stderr)
            else:
                print("\\n".join(f"{ws.word} {ws.similarity}" for ws in res))
''', '''    with open(args.input) as queries:
        for query in filter(None, map(str.strip, queries)):
            _answer(embeds, query, args.k)


def _answer(embeds, query, k):
    res = embeds.word_similarity(query, k=k)
    if res is None:
        sys.stderr.write(f"Could not compute neighbours for: {query}\\n")
        return
    if not res:
        sys.stdout.write("\\n")
    for entry in res:
        sys.stdout.write(f"{entry.word} {entry.similarity}\\n")
'''), ("scripts/select.py", '''        unique_words = list(dict.fromkeys(word.strip() for word in inp))
''', '''        unique_words = []
        seen = set()
        for line in inp:
            word = line.strip()
            if word not in seen:
                seen.add(word)
                unique_words.append(word)
'''), ("scripts/convert.py", '''    embeds = Format(getattr(args, 'from')).load(args.input, args.lossy,
                                                args.mmap)
    Format(args.to).write(args.output, embeds)
''', '''    source, target = Format(getattr(args, 'from')), Format(args.to)
    target.write(args.output, source.load(args.input, args.lossy, args.mmap))
''')]

R["stdin"] = [("scripts/similar.py", "    with open(args.input) as queries:\n",
               "    with (sys.stdin if args.input == 0 else open(args.input)) as queries:\n"),
              ("scripts/analogy.py", "    with open(args.input) as queries:\n",
               "    with (sys.stdin if args.input == 0 else open(args.input)) as queries:\n")]

R["locks"] = [("embeddings.py", '''    def __getitem__(self, item: str) -> np.ndarray:
''', '''    def __getitem__(self, item: str) -> np.ndarray:
        with _LOCK:
            return self._get(item)

    def _get(self, item):
'''), ("embeddings.py", '''        embed = self.embedding(query)
        if embed is None:
            return None
        return self._similarity(embed, k, {query})
''', '''        with _LOCK:
            embed = self.embedding(query)
            return None if embed is None else self._similarity(embed, k, {query})
'''), ("embeddings.py", '''class Embeddings:  # pylint: disable=too-many-instance-attributes
''', '''_LOCK = threading.RLock()


class Embeddings:
'''), ("embeddings.py", "import heapq\n", "import heapq\nimport threading\n")]

R["cache"] = [("vocab/subword.py", '''        idx = self.word_index.get(item)
        if idx is not None:
            return idx
        subwords = cast(List[int], self.subword_indices(item))
        if subwords != []:
            return subwords
        return default
''', '''        idx = self.word_index.get(item)
        if idx is not None:
            return idx
        cache = self.__dict__.setdefault("_oov", {})
        if item not in cache:
            cache[item] = tuple(self.subword_indices(item))
        subwords = list(cache[item])
        return subwords if subwords else default
''')]

R["atomic"] = [("embeddings.py", '''        with open(file, 'wb') as outf:
            chunks = self.chunks()
            header = Header([chunk.chunk_identifier() for chunk in chunks])
            header.write_chunk(outf)
            for chunk in chunks:
                chunk.write_chunk(outf)
''', '''        chunks = self.chunks()
        if isinstance(file, int) or (os.path.exists(file) and not os.path.isfile(file)):
            with open(file, 'wb') as outf:
                self._write_to(outf, chunks)
            return
        temp = os.fsdecode(file) + f".{os.getpid()}.{threading.get_ident()}"
        try:
            with open(temp, 'wb') as outf:
                self._write_to(outf, chunks)
            os.replace(temp, file)
        except BaseException:
            if os.path.exists(temp):
                os.unlink(temp)
            raise

    @staticmethod
    def _write_to(outf, chunks):
        Header([chunk.chunk_identifier() for chunk in chunks]).write_chunk(outf)
        for chunk in chunks:
            chunk.write_chunk(outf)
'''), ("embeddings.py", "import heapq\n", "import heapq\nimport os\nimport threading\n")]

R["buffered"] = [("embeddings.py", '''        with open(file, 'wb') as outf:
            chunks = self.chunks()
            header = Header([chunk.chunk_identifier() for chunk in chunks])
            header.write_chunk(outf)
            for chunk in chunks:
                chunk.write_chunk(outf)
''', '''        chunks = self.chunks()
        buffer = io.BytesIO()
        Header([chunk.chunk_identifier() for chunk in chunks]).write_chunk(buffer)
        for chunk in chunks:
            chunk.write_chunk(buffer)
        with open(file, 'wb') as outf:
            outf.write(buffer.getvalue())
'''), ("embeddings.py", "import heapq\n", "import heapq\nimport io\n")]

R["slurp"] = [("embeddings.py", '''    with open(file, 'rb') as inf:
        header = Header.read_chunk(inf)
''', '''    with open(file, 'rb', buffering=1 << 20) as inf:
        header = Header.read_chunk(inf)
'''), ("storage/quantized.py", '''        quantized = self._quantized_embeddings[key]
        out = self._quantizer.reconstruct(quantized, out=out)
        if self._norms is None:
            return out
        return np.multiply(self._norms[key, None], out, out=out)
''', '''        out = self._quantizer.reconstruct(self._quantized_embeddings[key],
                                          out=out)
        if self._norms is not None:
            out *= self._norms[key, None]
        return out
'''), ("norms.py", '''        array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
        if array.size != n_norms:
            raise FinalfusionFormatError(
                f'Could not read {n_norms} norms from file')
        if sys.byteorder == "big":
            array.byteswap(inplace=True)
        return Norms(array)
''', '''        return Norms(_read_array_as_native(file, np.float32, n_norms))
'''), ("norms.py", "_serialize_array_as_le\n", "_serialize_array_as_le, \\\n    _read_array_as_native\n"), ("norms.py", "import sys\n", "")]

# ---- second set: helpers, generators, context managers, closures, comprehensions, extension modules ----------
R["ctx-open"] = [("io.py", '''def find_chunk(file: BinaryIO,
''', '''@contextmanager
def _open_at(file, chunks):
    """
    Open a file at the first of the given chunks.
    """
    with open(file, "rb") as inf:
        yield inf, find_chunk(inf, chunks)


def find_chunk(file: BinaryIO,
'''), ("io.py", "import struct\n", "import struct\nfrom contextlib import contextmanager\n"),
    ("norms.py", '''    with open(file, "rb") as inf:
        chunk = find_chunk(inf, [ChunkIdentifier.NdNorms])
''', '''    with _open_at(file, [ChunkIdentifier.NdNorms]) as (inf, chunk):
'''), ("norms.py", "find_chunk, TypeId", "_open_at, TypeId"),
    ("metadata.py", '''    with open(file, 'rb') as inf:
        chunk = find_chunk(inf, [ChunkIdentifier.Metadata])
''', '''    with _open_at(file, [ChunkIdentifier.Metadata]) as (inf, chunk):
'''), ("metadata.py", "find_chunk, _read", "_open_at, _read"),
    ("storage/__init__.py", '''    with open(file, "rb") as inf:
        chunk = find_chunk(
            inf, [ChunkIdentifier.NdArray, ChunkIdentifier.QuantizedArray])
        if chunk is None:
            raise ValueError('File did not contain a storage')
        if chunk == ChunkIdentifier.NdArray:
            if mmap:
                return NdArray.mmap_chunk(inf)
            return NdArray.read_chunk(inf)
        if chunk == ChunkIdentifier.QuantizedArray:
            if mmap:
                return QuantizedArray.mmap_chunk(inf)
            return QuantizedArray.read_chunk(inf)
        raise NotImplementedError('Storage type is not yet supported.')
''', '''    kinds = {cls.chunk_identifier(): cls for cls in (NdArray, QuantizedArray)}
    with _open_at(file, list(kinds)) as (inf, chunk):
        if chunk is None:
            raise ValueError('File did not contain a storage')
        return kinds[chunk].load(inf, mmap)
'''), ("storage/__init__.py", "import ChunkIdentifier, find_chunk", "import _open_at")]

R["quantized"] = [("storage/quantized.py", '''        quantized = self._quantized_embeddings[key]
        out = self._quantizer.reconstruct(quantized, out=out)
        if self._norms is None:
            return out
        return np.multiply(self._norms[key, None], out, out=out)
''', '''        result = self._quantizer.reconstruct(self._quantized_embeddings[key],
                                             out=out)
        if self._norms is not None:
            result *= self._norms[key][..., None]
        return result
'''), ("storage/quantized.py", '''        return map(self.embedding, range(len(self)))
''', '''        for idx in range(len(self)):
            yield self.embedding(idx)
'''), ("storage/quantized.py", '''        if out is None:
            if quantized.ndim == 1:
                out_shape = self._reconstructed_len  # type: Union[int, Sequence[int]]
            else:
                first_dims = quantized.shape[:-1]  # type: Sequence[int]
                out_shape = (*first_dims, self._reconstructed_len)
            out = self._quantizers[quantizers_range, quantized].reshape(
                out_shape)
        else:
            assert out.shape[:-1] == quantized.shape[:-1]
            assert out.shape[-1] == self._reconstructed_len
            out[:] = self._quantizers[quantizers_range, quantized].reshape(
                out.shape)
''', '''        out_shape = tuple(quantized.shape[:-1]) + (self._reconstructed_len, )
        if out is not None:
            assert out.shape == out_shape
        picked = self._quantizers[quantizers_range, quantized]
        if out is None:
            out = picked.reshape(out_shape)
        else:
            np.copyto(out, picked.reshape(out_shape))
'''), ("storage/quantized.py", '''        projection = _read_required_binary(file, '<I')[0] != 0
        read_norms = _read_required_binary(file, '<I')[0] != 0
        quantized_len = _read_required_binary(file, '<I')[0]
        reconstructed_len = _read_required_binary(file, '<I')[0]
        n_centroids = _read_required_binary(file, '<I')[0]
        n_embeddings = _read_required_binary(file, '<Q')[0]
        assert reconstructed_len % quantized_len == 0
        type_id = _read_required_binary(file, '<I')[0]
        if int(TypeId.u8) != type_id:
            raise FinalfusionFormatError(
                f"Invalid Type, expected {str(TypeId.u8)}, got {type_id}")
        type_id = _read_required_binary(file, '<I')[0]
        if int(TypeId.f32) != type_id:
            raise FinalfusionFormatError(
                f"Invalid Type, expected {str(TypeId.f32)}, got {type_id}")
''', '''        (has_projection, has_norms, quantized_len, reconstructed_len,
         n_centroids, n_embeddings, *types) = _read_required_binary(
             file, '<IIIIIQII')
        projection, read_norms = bool(has_projection), bool(has_norms)
        assert reconstructed_len % quantized_len == 0
        for expected, type_id in zip((TypeId.u8, TypeId.f32), types):
            if int(expected) != type_id:
                raise FinalfusionFormatError(
                    f"Invalid Type, expected {str(expected)}, got {type_id}")
''')]

R["vocab-gen"] = [("vocab/vocab.py", '''    items = []
    for _ in range(length):
        items.append(_read_item(file))
    return items
''', '''    return [_read_item(file) for _ in range(length)]
'''), ("vocab/vocab.py", '''    items = []
    index = dict()
    for _ in range(length):
        item = _read_item(file)
        idx = _read_required_binary(file, "<Q")[0]
        items.append(item)
        index[item] = idx
    return items, index
''', '''    def pairs():
        for _ in range(length):
            yield _read_item(file), _read_required_binary(file, "<Q")[0]

    found = list(pairs())
    return [item for item, _ in found], dict(found)
'''), ("vocab/vocab.py", '''    size = sum(len(bytes(item, "utf-8")) for item in items)
    size += struct.calcsize("<Q")
    size += len(items) * struct.calcsize("<I")
    return size
''', '''    def item_size(item):
        return 4 + len(item.encode("utf-8"))

    return 8 + sum(map(item_size, items))
'''), ("vocab/vocab.py", '''    for word in b_words:
        _write_binary(file, "<I", len(word))
        file.write(word)
''', '''    file.writelines(struct.pack("<I", len(word)) + word for word in b_words)
'''), ("vocab/subword.py", '''        for ngram in self.subword_indexer.ngrams:
            b_ngram = ngram.encode("utf-8")
            _write_binary(file, "<I", len(b_ngram))
            file.write(b_ngram)
            _write_binary(file, "<Q", self.subword_indexer.ngram_index[ngram])
''', '''        index = self.subword_indexer.ngram_index
        for ngram in self.subword_indexer:
            encoded = ngram.encode("utf-8")
            _write_binary(file, f"<I{len(encoded)}sQ", len(encoded), encoded,
                          index[ngram])
'''), ("vocab/subword.py", '''    for word in vocab.words:
        token_ngrams = vocab.subwords(word)
        for ngram in token_ngrams:
            if ngram not in ngram_index:
                ngram_list.append(ngram)
                idx = vocab.subword_indexer(ngram)
                if idx not in idx_index:
                    idx_index[idx] = len(idx_index)
                ngram_index[ngram] = idx_index[idx]
''', '''    all_ngrams = (ngram for word in vocab.words
                  for ngram in vocab.subwords(word))
    for ngram in all_ngrams:
        if ngram in ngram_index:
            continue
        ngram_list.append(ngram)
        ngram_index[ngram] = idx_index.setdefault(
            vocab.subword_indexer(ngram), len(idx_index))
''')]

R["select-gen"] = [("scripts/select.py", '''        unique_words = list(dict.fromkeys(word.strip() for word in inp))
        matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                          dtype=np.float32)
        words = []
        for word in unique_words:
            try:
                matrix[len(words)] = embeds[word]
                words.append(word)
            except KeyError:
                if args.verbose or not args.ignore_unk:
                    print(f"Cannot represent '{word}'.", file=sys.stderr)
                if not args.ignore_unk:
                    sys.exit(1)
    vocab = SimpleVocab(words)
    matrix = matrix[:len(words)]
''', '''        unique_words = {}
        for line in inp:
            unique_words[line.strip()] = None
    found = {}
    for word in unique_words:
        embed = embeds.embedding(word)
        if embed is not None:
            found[word] = np.array(embed, dtype=np.float32)
            continue
        if args.verbose or not args.ignore_unk:
            print(f"Cannot represent '{word}'.", file=sys.stderr)
        if not args.ignore_unk:
            sys.exit(1)
    vocab = SimpleVocab(list(found))
    matrix = np.zeros((len(found), embeds.dims), dtype=np.float32)
    for row, embed in zip(matrix, found.values()):
        row[:] = embed
'''), ("scripts/util.py", '''        if self == Format.finalfusion:
            return load_finalfusion(path, mmap)
        if self == Format.word2vec:
            return load_word2vec(path, lossy)
        if self == Format.text:
            return load_text(path, lossy)
        if self == Format.textdims:
            return load_text_dims(path, lossy)
        if self == Format.fasttext:
            return load_fasttext(path, lossy)
        raise ValueError(f"Unknown format {str(self)}")
''', '''        if self is Format.finalfusion:
            return load_finalfusion(path, mmap=mmap)
        loaders = {
            Format.word2vec: load_word2vec,
            Format.text: load_text,
            Format.textdims: load_text_dims,
            Format.fasttext: load_fasttext
        }
        return loaders[self](path, lossy=lossy)
'''), ("scripts/analogy.py", '''    if includes == []:
        return {query_c, query_b, query_a}
    skips = set()
    if 'a' not in includes:
        skips.add(query_a)
    if 'b' not in includes:
        skips.add(query_b)
    if 'c' not in includes:
        skips.add(query_c)
    return skips
''', '''    queries = dict(a=query_a, b=query_b, c=query_c)
    return {word for part, word in queries.items() if part not in includes}
''')]

R["text-gen"] = [("compat/text.py", '''    words = []
    matrix = np.zeros((rows, cols), dtype=np.float32)
    for row, line in zip(matrix, file):
        parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
        words.append(parts[0])
        if len(parts) - 1 != cols:
            raise ValueError(
                f'Expected {cols} components for {parts[0]}, not {len(parts) - 1}'
            )
        row[:] = parts[1:]
''', '''    def entries():
        for _, line in zip(range(rows), file):
            word, *parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
            if len(parts) != cols:
                raise ValueError(
                    f'Expected {cols} components for {word}, not {len(parts)}')
            yield word, np.array([float(part) for part in parts],
                                 dtype=np.float32)

    matrix = np.zeros((rows, cols), dtype=np.float32)
    words = []
    for i, (word, embed) in enumerate(entries()):
        words.append(word)
        matrix[i] = embed
'''), ("compat/text.py", '''        for idx, word in enumerate(vocab):
            row = matrix[idx]  # type: np.ndarray
            if embeddings.norms is not None:
                row = row * embeddings.norms[idx]
            print(word, ' '.join(map(str, row)), sep=sep, file=outf)
''', '''        norms = embeddings.norms
        for idx, word in enumerate(vocab.words):
            row = matrix[idx] if norms is None else matrix[idx] * norms[idx]
            outf.write(word + sep + ' '.join(str(val) for val in row) + '\\n')
'''), ("compat/word2vec.py", '''        for idx, word in enumerate(vocab):
            row = matrix[idx]  # type: np.ndarray
            if embeddings.norms is not None:
                row = row * embeddings.norms[idx]
            b_word = word.encode('utf-8')
            outf.write(b_word)
            outf.write(b' ')
            _serialize_array_as_le(outf, row)
            outf.write(b'\\n')
''', '''        def scaled():
            if embeddings.norms is None:
                yield from (matrix[idx] for idx in range(len(vocab)))
            else:
                for idx, norm in enumerate(embeddings.norms):
                    yield matrix[idx] * norm

        for word, row in zip(vocab, scaled()):
            outf.write(b'%s ' % word.encode('utf-8'))
            _serialize_array_as_le(outf, row)
            outf.write(b'\\n')
''')]

R["pyx"] = [("subword/ngrams.pyx", '''    for i in range(length + 1 - min_n):
        for j in range(max_n, min_n-1, -1):
            if j + i <= length:
                ngrams.append(word[i:i + j])
    return ngrams
''', '''    while i + min_n <= length:
        j = min(max_n, length - i)
        while j >= min_n:
            ngrams.append(word[i:i + j])
            j -= 1
        i += 1
    return ngrams
'''), ("subword/explicit_indexer.pyx", '''        for i in range(length + 1 - self._min_n):
            for j in range(max_n, self._min_n - 1, -1):
                if j + i <= length:
                    ngram = word[i:i + j]
                    idx = self._ngram_index.get(ngram)
                    if idx is None:
                        continue
                    if with_ngrams:
                        ngrams.append((ngram, idx + offset))
                    else:
                        ngrams.append(idx + offset)
        return ngrams
''', '''        for i in range(length + 1 - self._min_n):
            for j in range(min(max_n, length - i), self._min_n - 1, -1):
                ngram = word[i:i + j]
                if ngram in self._ngram_index:
                    idx = self._ngram_index[ngram] + offset
                    ngrams.append((ngram, idx) if with_ngrams else idx)
        return ngrams
''')]

R["embeddings-helpers"] = [("embeddings.py", '''        embed_a = self.embedding(word1)
        embed_b = self.embedding(word2)
        embed_c = self.embedding(word3)
        if embed_a is None or embed_b is None or embed_c is None:
            return None
        diff = embed_b - embed_a
        embed_d = embed_c + diff
        embed_d /= np.linalg.norm(embed_d)
        return self._similarity(
            embed_d, k, {word1, word2, word3} if skip is None else skip)
''', '''        words = (word1, word2, word3)
        embeds = [self.embedding(word) for word in words]
        if any(embed is None for embed in embeds):
            return None
        target = embeds[2] + (embeds[1] - embeds[0])
        target = target / np.linalg.norm(target)
        return self._similarity(target, k, set(words) if skip is None else skip)
'''), ("embeddings.py", '''        chunks = []  # type: List[Chunk]
        if self.metadata is not None:
            chunks.append(self.metadata)
        chunks.append(self.vocab)
        chunks.append(self.storage)
        if self.norms is not None:
            chunks.append(self.norms)
        return chunks
''', '''        parts = (self.metadata, self.vocab, self.storage, self.norms)
        return [part for part in parts if part is not None]
'''), ("embeddings.py", '''        if self._norms is not None:
            return zip(self._vocab, self._storage, self._norms)
        return zip(self._vocab, self._storage)
''', '''        columns = [self._vocab, self._storage]
        if self._norms is not None:
            columns.append(self._norms)
        yield from zip(*columns)
'''), ("embeddings.py", '''        storage[:len(vocab)] = self._storage[:len(vocab)]
        for ngram in vocab.subword_indexer:
            storage[len(vocab) + vocab.subword_indexer[ngram]] = self._storage[
                len(vocab) + self.vocab.subword_indexer(ngram)]
''', '''        n_words = len(vocab)
        storage[:n_words] = self._storage[:n_words]
        explicit, buckets = vocab.subword_indexer, self.vocab.subword_indexer
        pairs = {explicit[ngram]: buckets(ngram) for ngram in explicit}
        for new, old in sorted(pairs.items()):
            storage[n_words + new] = self._storage[n_words + old]
'''), ("embeddings.py", '''        skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                             for skip in skips)
                           if skip is not None)
        n_candidates = k + len(skip_indices)
''', '''        word_index = self.vocab.word_index
        skip_indices = {word_index[word] for word in skips if word in word_index}
        n_candidates = len(skip_indices) + k
''')]

CHECKS = [f"C{i:02d}" for i in range(1, 15)] + ["C17"]


def runs_of(prop):
    m = re.search(r'RUNS = \{"quick": (\d+)', open(f"{VERIF}/ffsim/props/{prop.lower()}.py").read())
    return int(m.group(1))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--runs", type=float, default=0.5)
    ap.add_argument("--workers", default="8")
    ap.add_argument("--checks", default=",".join(CHECKS))
    a = ap.parse_args()
    base = tempfile.mkdtemp(prefix="refac.", dir="/dev/shm")
    shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "replays"))
    for name, edits in R.items():
        if a.names and name not in a.names:
            continue
        d = base + "/r"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
        for path, old, new in edits:
            p = os.path.join(d, "src/finalfusion", path)
            s = open(p, encoding="utf-8").read()
            if s.count(old) < 1:
                raise SystemExit(f"{name}: {path}: {s.count(old)} matches of {old!r}")
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "--deselect",
                            "tests/test_storage.py::test_from_matrix"], cwd=d, env=env, capture_output=True)
        print(name, "tests", "ok" if r.returncode == 0 else r.stdout.decode()[-1500:], flush=True)
        for c in a.checks.split(","):
            r = subprocess.run(["bash", f"{base}/verif/check.sh", c, "--workers", a.workers, "--runs", str(int(runs_of(c) * a.runs))],
                               env=dict(os.environ, FFSIM_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True)
            out = r.stdout.decode(errors="replace")
            if r.returncode:
                keep = f"/tmp/refac.{name}.{c}.json"
                m = re.search(r"replay=(\S+)", out)
                if m:
                    shutil.copy(m.group(1), keep)
                print(f"{name} {c}: ALARM {r.returncode} {out[-600:]} {r.stderr.decode(errors='replace')[-600:]} {keep}", flush=True)
        print(name, "done", flush=True)
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
