From f9c66414e4916fc0f3c876b3b86e40da55989ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:01 +0000
Subject: [PATCH 01/26] fix: memory map the opened file instead of reopening it
 by name

Loading with mmap=True failed for file descriptors, and could mix two
versions of a file that was replaced during the load.
---
 src/finalfusion/storage/ndarray.py   | 5 +++--
 src/finalfusion/storage/quantized.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 12834e9..926f68e 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -84,12 +84,13 @@ class NdArray(np.ndarray, Storage):
                 "Memmapping arrays is not supported on big endian platforms")
         rows, cols = NdArray._read_array_header(file)
         offset = file.tell()
-        file.seek(rows * cols * struct.calcsize('f'), 1)
-        array = np.memmap(file.name,
+        # map the file that was opened, its name may refer to another file by now
+        array = np.memmap(file,
                           dtype='<f4',
                           mode='r',
                           offset=offset,
                           shape=(rows, cols))
+        file.seek(offset + rows * cols * struct.calcsize('f'))
         return NdArray(array)
 
     @staticmethod
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..6da4149 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -305,12 +305,13 @@ class QuantizedArray(Storage):
             file)
         n_embeddings, quantized_len = embeds_shape
         offset = file.tell()
-        file.seek(n_embeddings * quantized_len, 1)
-        quantized_embeddings = np.memmap(file.name,
+        # map the file that was opened, its name may refer to another file by now
+        quantized_embeddings = np.memmap(file,
                                          dtype=np.uint8,
                                          mode='r',
                                          offset=offset,
                                          shape=embeds_shape)
+        file.seek(offset + n_embeddings * quantized_len)
         return QuantizedArray(quantizer, quantized_embeddings, norms)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From bb6330fe2ce0b6bc7879148b7a207097ef729b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:03 +0000
Subject: [PATCH 02/26] fix: count the n-gram indices in the length of explicit
 vocab chunks

The chunk length was 8 bytes per n-gram too small, so no chunk behind an
explicit vocabulary could be found by skipping over it.
---
 src/finalfusion/vocab/subword.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..fc2f765 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -373,6 +373,9 @@ class ExplicitVocab(SubwordVocab):
         chunk_length = _calculate_binary_list_size(self.words)
         chunk_length += _calculate_binary_list_size(
             self.subword_indexer.ngrams)
+        # each n-gram is followed by its index
+        chunk_length += len(
+            self.subword_indexer.ngrams) * struct.calcsize("<Q")
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
         chunk_header = (int(self.chunk_identifier()), chunk_length,
-- 
2.43.0


From 25596f57157e534970fb4071224900b27f785f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:08 +0000
Subject: [PATCH 03/26] fix: allow an ExplicitIndexer without n-grams when an
 index is given

Explicit vocabularies without n-grams could be constructed and saved, but
not loaded, and bucket vocabularies without n-grams could not be converted.
---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..c99c6f0 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,7 +51,7 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
             assert max_idx + 1 == n_unique_vals, \
                 f"Indices need to cover 0, max(ngram_index.values())"
-- 
2.43.0


From c11efe31602afacd505d538a5a59c37b93308614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:42 +0000
Subject: [PATCH 04/26] fix: report write errors when serializing arrays

ndarray.tofile ignores errors on its last buffer: with a full disk a save
could return normally although up to 4 KiB per array were never written.
---
 src/finalfusion/io.py                | 16 +++++++++++++---
 src/finalfusion/storage/quantized.py |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..78b3167 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -317,13 +317,23 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
     array_bo = array.dtype.byteorder
     array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)
     if array_is_le:
-        array.tofile(file)
+        _write_array(file, array)
     else:
         if array.ndim == 2:
             for row in array:
-                row.byteswap(inplace=False).tofile(file)
+                _write_array(file, row.byteswap(inplace=False))
         else:
-            array.byteswap(inplace=False).tofile(file)
+            _write_array(file, array.byteswap(inplace=False))
+
+
+def _write_array(file: BinaryIO, array: np.ndarray):
+    # ndarray.tofile does not report errors that occur when its last buffer is
+    # flushed, e.g. if the disk is full.
+    if array.ndim == 2 and not array.flags.c_contiguous:
+        for row in array:
+            file.write(np.ascontiguousarray(row).data)
+    else:
+        file.write(np.ascontiguousarray(array).data)
 
 
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 6da4149..327b027 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -337,7 +337,7 @@ class QuantizedArray(Storage):
         _serialize_array_as_le(file, self.quantizer.subquantizers)
         if norms:
             _serialize_array_as_le(file, self._norms)
-        self._quantized_embeddings.tofile(file)
+        _serialize_array_as_le(file, self._quantized_embeddings)
 
     @staticmethod
     def chunk_identifier() -> ChunkIdentifier:
-- 
2.43.0


From 60f618ba88e974a295d1ce2b55656bab0a96c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:31 +0000
Subject: [PATCH 05/26] fix: reject truncated items in vocabulary chunks

The last word of a file that was cut off inside that word was silently
shortened.
---
 src/finalfusion/vocab/vocab.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..27504e7 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,7 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, FinalfusionFormatError, _read_required_binary, _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -111,6 +111,18 @@ def _write_words_binary(b_words: Iterable[bytes], file: BinaryIO):
         file.write(word)
 
 
+def _read_item(file: BinaryIO) -> str:
+    """
+    Helper method to read a single length-prefixed item.
+    """
+    item_length = _read_required_binary(file, "<I")[0]
+    item = file.read(item_length)
+    if len(item) != item_length:
+        raise FinalfusionFormatError(
+            f'Could not read {item_length} bytes from file')
+    return item.decode("utf-8")
+
+
 def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     Helper method to read items from a vocabulary chunk.
@@ -129,9 +141,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     items = []
     for _ in range(length):
-        item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
-        items.append(word)
+        items.append(_read_item(file))
     return items
 
 
@@ -155,8 +165,7 @@ def _read_items_with_indices(file: BinaryIO,
     items = []
     index = dict()
     for _ in range(length):
-        item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_item(file)
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From 985a1cf71ee9980afe7720bea0fcb58bd982ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:42 +0000
Subject: [PATCH 06/26] fix: reject files that end before the announced norms
 chunk

A file cut off between storage and norms was loaded as if it had been
saved without norms.
---
 src/finalfusion/embeddings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..6ed8b68 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -681,7 +681,7 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
         The embeddings from the input file.
     """
     with open(file, 'rb') as inf:
-        _ = Header.read_chunk(inf)
+        header = Header.read_chunk(inf)
         chunk_id, _ = _read_required_chunk_header(inf)
         norms = None
         metadata = None
@@ -717,6 +717,9 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
             else:
                 raise FinalfusionFormatError(
                     f'Expected norms chunk, not {str(chunk_id)}')
+        elif ChunkIdentifier.NdNorms in header.chunk_ids:
+            raise FinalfusionFormatError(
+                'File ends before the norms chunk given in the header')
 
         return Embeddings(storage, vocab, norms, metadata, inf.name)
 
-- 
2.43.0


From a4acd8f5d27cbbcf3a44e22e9efa7b5caa3cd73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:55 +0000
Subject: [PATCH 07/26] fix: reject truncated norms chunks

load_norms returned fewer norms than the chunk announces when the file
was cut off.
---
 src/finalfusion/norms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..71ee453 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -59,6 +59,9 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
         array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
+        if array.size != n_norms:
+            raise FinalfusionFormatError(
+                f'Could not read {n_norms} norms from file')
         if sys.byteorder == "big":
             array.byteswap(inplace=True)
         return Norms(array)
-- 
2.43.0


From cccefc3dbd34a417cb531582be6a54085bd8805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:16 +0000
Subject: [PATCH 08/26] fix: reject truncated vectors in word2vec files

Assigning the components that could be read to a row of the matrix broadcast
a single component to the whole row.
---
 src/finalfusion/compat/word2vec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..69d9d67 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -47,6 +47,9 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         for row in matrix:
             words.append(_read_binary_word(inf, b' ', lossy).strip())
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if array.size != cols:
+                raise EOFError(
+                    f'Expected {cols} components for {words[-1]}, not {array.size}')
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From c7c69bef11ba4f3265ea3c3c6d07abecd467fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:26 +0000
Subject: [PATCH 09/26] fix: don't turn zero vectors into NaN when normalizing

Loading word2vec, fastText or text files with a zero vector divided it by its
norm.
---
 src/finalfusion/_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 5fa82f8..6ce61f1 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -8,7 +8,11 @@ from finalfusion.norms import Norms
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
     norms = np.linalg.norm(storage, axis=1)
-    storage /= norms[:, None]
+    # zero vectors can't be normalized, leave them as they are
+    np.divide(storage,
+              norms[:, None],
+              out=storage,
+              where=norms[:, None] != 0)
     return Norms(norms)
 
 
-- 
2.43.0


From c073bbbbb47eba89ef8bfac1a043cde0567511bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:34 +0000
Subject: [PATCH 10/26] fix: reject rows with missing components in text files

A row with a single component was broadcast to all columns.
---
 src/finalfusion/compat/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..f10c967 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -146,6 +146,10 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
         words.append(parts[0])
+        if len(parts) - 1 != cols:
+            raise ValueError(
+                f'Expected {cols} components for {parts[0]}, not {len(parts) - 1}'
+            )
         row[:] = parts[1:]
     storage = NdArray(matrix)
     return Embeddings(storage=storage,
-- 
2.43.0


From 433c7d182543fdf1e2c502ca116d1d5605879b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:49 +0000
Subject: [PATCH 11/26] fix: reject incompletely read arrays

The norms of quantized arrays are not reshaped, so nothing noticed when only
part of them could be read.
---
 src/finalfusion/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 78b3167..3a33f40 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -339,6 +339,8 @@ def _write_array(file: BinaryIO, array: np.ndarray):
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
                           count: int) -> np.array:
     array = np.fromfile(file=file, count=count, dtype=dtype)
+    if array.size != count:
+        raise FinalfusionFormatError(f'Could not read {count} items from file')
     if sys.byteorder == "big":
         array.byteswap(inplace=True)
     return array
-- 
2.43.0


From 863672cf2d1fa690d54f4bfe7008119d3fe99b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:10 +0000
Subject: [PATCH 12/26] fix: answer similarity queries for more neighbours than
 there are words

---
 src/finalfusion/embeddings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 6ed8b68..803484e 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,11 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = k + len(skip_indices)
+        if n_candidates < len(sims):
+            partition = sims.argpartition(-n_candidates)[-n_candidates:]
+        else:
+            partition = range(len(sims))
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From 2883a526dfbc9017079f4ee1a23eeff72fa241ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:27 +0000
Subject: [PATCH 13/26] fix: support similarity queries on quantized embeddings

---
 src/finalfusion/embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 803484e..b508482 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -604,7 +604,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
 
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
-        words = self.storage[:len(self.vocab)]  # type: np.ndarray
+        # quantized storages are reconstructed
+        words = np.asarray(self.storage[:len(self.vocab)])
         sims = words.dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
-- 
2.43.0


From ea21d1e058a70441aba8299a1910d409f0ac5251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 14/26] fix: allow numpy to convert quantized arrays to a
 requested dtype

---
 src/finalfusion/storage/quantized.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 327b027..8da89bf 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,13 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype: np.dtype = None) -> np.ndarray:
+        array = self._quantizer.reconstruct(self._quantized_embeddings)
+        if self._norms is not None:
+            array = self._norms[:, None] * array
+        if dtype is not None:
+            array = array.astype(dtype, copy=False)
+        return array
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From 7d12811b50c4960bb24104961005375653f0a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:51 +0000
Subject: [PATCH 15/26] fix: scale vectors by their norm when iterating over
 quantized arrays

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 8da89bf..5b0ad7c 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From 6024232921f74c7c5e8b6ed415e0a8f6e4ad3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:56 +0000
Subject: [PATCH 16/26] fix: reject norms that are not float32

---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index 71ee453..c1d2d34 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From d2e9852d0f69131cee083588677b19169cde7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:53 +0000
Subject: [PATCH 17/26] fix: keep the order of the input when selecting words

The words went through a set, so that the order of the selected
embeddings changed with the hash seed of the process.
---
 src/finalfusion/scripts/select.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..73f8e86 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -42,10 +42,11 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     args = parser.parse_args()
     embeds = Format(args.format).load(args.input, args.lossy, args.mmap)
     with open(args.words, errors='replace' if args.lossy else 'strict') as inp:
-        unique_words = set(word.strip() for word in inp)
+        # unlike a set, a dict keeps the order of the input
+        unique_words = list(dict.fromkeys(word.strip() for word in inp))
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
+        vocab = SimpleVocab(unique_words)
         for i, word in enumerate(vocab):
             try:
                 matrix[i] = embeds[word]
-- 
2.43.0


From 6d83d83d817245f3212996bf8337dee908e1139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:04 +0000
Subject: [PATCH 18/26] fix: skip unrepresentable words in ffp-select
 --ignore_unk

The words were kept in the vocabulary, with zero vectors.
---
 src/finalfusion/scripts/select.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 73f8e86..e80f50e 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -46,15 +46,18 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         unique_words = list(dict.fromkeys(word.strip() for word in inp))
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(unique_words)
-        for i, word in enumerate(vocab):
+        words = []
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
+                words.append(word)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
                 if not args.ignore_unk:
                     sys.exit(1)
+    vocab = SimpleVocab(words)
+    matrix = matrix[:len(words)]
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-- 
2.43.0


From 57553aff4f170ecc554963e8a6b7a90d8229c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:13 +0000
Subject: [PATCH 19/26] fix: leave out c instead of b in ffp-analogy unless c
 is included

---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From 94ad2f195d035c95da78198d6f8dc6ca40f500f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:07 +0000
Subject: [PATCH 20/26] fix: reject negative sizes in fastText files

A negative number of rows or columns made numpy read the rest of the
file and guess the shape of the matrix.
---
 src/finalfusion/compat/fasttext.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..4096a4e 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -154,6 +154,8 @@ def _read_ft_vocab(file: BinaryIO, buckets: int, min_n: int, max_n: int,
     if prune_idx_size >= 0:
         raise NotImplementedError("Pruned vocabs are not supported")
 
+    if vocab_size < 0:
+        raise ValueError(f"Invalid vocabulary size: {vocab_size}")
     words = [_read_binary_word(file, lossy) for _ in range(vocab_size)]
     indexer = FastTextIndexer(buckets, min_n, max_n)
     return FastTextVocab(words, indexer)
@@ -193,6 +195,8 @@ def _read_ft_storage(file: BinaryIO, vocab: Vocab) -> NdArray:
         raise NotImplementedError(
             "Quantized storage is not supported for fastText models")
     rows, cols = _read_required_binary(file, "<qq")
+    if rows < 0 or cols < 0:
+        raise ValueError(f"Invalid shape of matrix: {rows} {cols}")
     matrix = np.fromfile(file=file, count=rows * cols,
                          dtype=np.float32).reshape((rows, cols))
     if sys.byteorder == 'big':
-- 
2.43.0


From 5b788b5d71b275188545b7c6e7897e51320dac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 21/26] fix: word2vec loader keeps non-ASCII whitespace at the
 ends of words

---
 src/finalfusion/compat/word2vec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 69d9d67..f5723f6 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,6 +2,7 @@
 Word2vec binary format.
 """
 
+import string
 import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
@@ -45,7 +46,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            words.append(_read_binary_word(inf, b' ', lossy).strip(
+                string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if array.size != cols:
                 raise EOFError(
-- 
2.43.0


From dda0ff5368388b514f003a9073c7b65aa0504af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:37 +0000
Subject: [PATCH 22/26] fix: refuse to write arrays of other types as float32
 or uint8

Arithmetic on a storage or on norms can give float64 arrays that are still
NdArray or Norms, and quantizers are not checked at all. They were written
with the header of a float32 array, so that an acknowledged save left a
corrupt file.
---
 src/finalfusion/io.py                | 8 +++++++-
 src/finalfusion/storage/quantized.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 3a33f40..23eb2db 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -312,7 +312,13 @@ def _read_required_chunk_header(file: BinaryIO) -> Tuple[ChunkIdentifier, int]:
     return val
 
 
-def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
+def _serialize_array_as_le(file: BinaryIO,
+                           array: np.ndarray,
+                           dtype: type = np.float32):
+    # e.g. arithmetics on a float32 storage can result in a float64 storage
+    if not np.issubdtype(array.dtype, dtype):
+        raise TypeError(
+            f'Cannot write array of type {array.dtype} as {np.dtype(dtype)}')
     native_is_le = sys.byteorder == "little"
     array_bo = array.dtype.byteorder
     array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 5b0ad7c..df1c07a 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -339,7 +339,7 @@ class QuantizedArray(Storage):
         _serialize_array_as_le(file, self.quantizer.subquantizers)
         if norms:
             _serialize_array_as_le(file, self._norms)
-        _serialize_array_as_le(file, self._quantized_embeddings)
+        _serialize_array_as_le(file, self._quantized_embeddings, np.uint8)
 
     @staticmethod
     def chunk_identifier() -> ChunkIdentifier:
-- 
2.43.0


From def5fc17d5190ea8e8c22217738311a3d3c4574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:55 +0000
Subject: [PATCH 23/26] fix: refuse quantized storages whose parts do not fit
 together

Codes of another width than there are subquantizers and norms of another
length than there are rows were accepted and saved as corrupt files.
---
 src/finalfusion/storage/quantized.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index df1c07a..834e27d 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -192,7 +192,17 @@ class QuantizedArray(Storage):
         norms : numpy.ndarray, optional
             Optional norms corresponding to the quantized embeddings. Reconstructed embeddings are
             scaled by their norm.
+
+        Raises
+        ------
+        AssertionError
+            If the shapes of the quantized embeddings, the norms and the quantizers don't match.
         """
+        assert quantized_embeddings.ndim == 2 and \
+            quantized_embeddings.shape[1] == pq.subquantizers.shape[0], \
+            "quantized embeddings need one code per subquantizer"
+        assert norms is None or norms.shape == quantized_embeddings.shape[:1], \
+            "Number of norms needs to be equal to number of quantized embeddings"
         self._quantizer = pq
         self._quantized_embeddings = quantized_embeddings
         self._norms = norms
-- 
2.43.0


From c8ff3d17f6221c57147462828c096f973bbc3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:55 +0000
Subject: [PATCH 24/26] fix: refuse norms that are not 1-dimensional

---
 src/finalfusion/embeddings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index b508482..36a65a8 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -660,6 +660,7 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
     @staticmethod
     def _norms_compat(storage: Storage, vocab: Vocab, norms: Norms):
         assert isinstance(norms, Norms), "norms are required to be Norms"
+        assert norms.ndim == 1, "norms are required to be 1-dimensional"
         assert storage.shape[0] >= len(norms),\
             "Number of embeddings needs to be greater than or equal to number of norms."
         assert len(vocab) == len(norms),\
-- 
2.43.0


From 6605815051a3c4b4926c2894ef9ab2f7a4672eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:40 +0000
Subject: [PATCH 25/26] fix: compute norms of loaded vectors in double
 precision

Squares of single precision components over- or underflow beyond 1e19 and
below 1e-23: such vectors were loaded as zeros with an infinite norm, or with
a norm of zero.
---
 src/finalfusion/_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 6ce61f1..a293ad5 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -7,7 +7,10 @@ from finalfusion.norms import Norms
 
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
-    norms = np.linalg.norm(storage, axis=1)
+    # squares of single precision components can over- and underflow
+    norms = np.sqrt(
+        np.einsum('ij,ij->i', storage, storage,
+                  dtype=np.float64)).astype(np.float32)
     # zero vectors can't be normalized, leave them as they are
     np.divide(storage,
               norms[:, None],
-- 
2.43.0


From f5a930f24c6626ad8dc99fcf4e2502bcb9e8a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 26/26] fix: write words with very many n-grams to fastText as
 float32

---
 src/finalfusion/compat/fasttext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 4096a4e..6667502 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -292,7 +292,8 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
     for i, word in enumerate(vocab):
         indices = vocab.subword_indices(word)
         embed = storage[i]  # type: np.ndarray
-        embed = embed * (len(indices) + 1)
+        # a float, since ints above 65535 would turn the vector into float64
+        embed = embed * np.float32(len(indices) + 1)
         if norms is not None:
             embed *= norms[i]
         sw_embeds = storage[indices]  # type: np.ndarray
-- 
2.43.0

