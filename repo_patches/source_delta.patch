From 720114f9d8142cf44413f57d476244c0992ab853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 01/19] fix: count the n-gram indices in the explicit vocab
 chunk length

---
 src/finalfusion/vocab/subword.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..07ae4d4 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -373,6 +373,8 @@ class ExplicitVocab(SubwordVocab):
         chunk_length = _calculate_binary_list_size(self.words)
         chunk_length += _calculate_binary_list_size(
             self.subword_indexer.ngrams)
+        chunk_length += len(
+            self.subword_indexer.ngrams) * struct.calcsize("<Q")
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
         chunk_header = (int(self.chunk_identifier()), chunk_length,
-- 
2.43.0


From 5710c70fafc772570bf23f944cfc6d0a9de15ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 02/19] fix: reject norms that are not float32

---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..ff4068a 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From cf463342cfaa764b437fec16240737556f571ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 03/19] fix: similarity queries with k exceeding the number of
 words

---
 src/finalfusion/embeddings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..82389a7 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,11 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = k + len(skip_indices)
+        if n_candidates < len(sims):
+            partition = sims.argpartition(-n_candidates)[-n_candidates:]
+        else:
+            partition = range(len(sims))
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From 9f98dcceb7f1fe656bb4a6d8f8d38d6a350a2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 04/19] fix: apply norms when iterating over quantized storage

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From 05eec61cc002a71f7e36c5ffb089903037f9e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 05/19] fix: similarity queries on quantized storage

---
 src/finalfusion/embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 82389a7..19cebf7 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -604,7 +604,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
 
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
-        words = self.storage[:len(self.vocab)]  # type: np.ndarray
+        words = np.asarray(
+            self.storage[:len(self.vocab)])  # type: np.ndarray
         sims = words.dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
-- 
2.43.0


From 045426e6832988bfa7429d2d8a2140424275b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 06/19] fix: ffp-analogy skips query c unless it is included

---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From 386799fbd8aab4ee9272ab68e37070e2627996e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 07/19] fix: allow explicit indexers without n-grams

---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..c99c6f0 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,7 +51,7 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
             assert max_idx + 1 == n_unique_vals, \
                 f"Indices need to cover 0, max(ngram_index.values())"
-- 
2.43.0


From 26557ea446f76621d75e7ef43dc31994b8eefe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 08/19] fix: refuse negative indices in explicit indexers

---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index c99c6f0..81a7e27 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -53,7 +53,7 @@ cdef class ExplicitIndexer:
                 'ngram_index needs to index all and only items in the ngrams list.'
             max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            assert max_idx + 1 == n_unique_vals and min(ngram_index.values(), default=0) == 0, \
                 f"Indices need to cover 0, max(ngram_index.values())"
             self._bound = max_idx + 1
         self._ngram_index = ngram_index
-- 
2.43.0


From d1b137b7a85ddc66d2de0bb5b30b8ce88bd0cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 09/19] fix: raise on vocab items that are cut off by the end
 of the file

---
 src/finalfusion/io.py          | 8 ++++++++
 src/finalfusion/vocab/vocab.py | 7 ++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..78d30b5 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -275,6 +275,14 @@ def _read_required_binary(file: BinaryIO, struct_fmt: str) -> Tuple[Any, ...]:
     return val
 
 
+def _read_required_bytes(file: BinaryIO, n_bytes: int) -> bytes:
+    buf = file.read(n_bytes)
+    if len(buf) != n_bytes:
+        raise FinalfusionFormatError(
+            f'Could not read {n_bytes} bytes from file')
+    return buf
+
+
 def _read_chunk_header(file: BinaryIO
                        ) -> Optional[Tuple['ChunkIdentifier', int]]:
     """
diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..95e78d9 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,8 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, _read_required_binary, \
+    _read_required_bytes, _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -130,7 +131,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     items = []
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
+        word = _read_required_bytes(file, item_length).decode("utf-8")
         items.append(word)
     return items
 
@@ -156,7 +157,7 @@ def _read_items_with_indices(file: BinaryIO,
     index = dict()
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_required_bytes(file, item_length).decode("utf-8")
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From 7c0d81b3487377b1735e37411899551e90c92bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 10/19] fix: raise on norms that are cut off by the end of the
 file

---
 src/finalfusion/norms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index ff4068a..9f11441 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -58,6 +58,9 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
         array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
+        if len(array) != n_norms:
+            raise FinalfusionFormatError(
+                f'Could not read {n_norms} norms from file')
         if sys.byteorder == "big":
             array.byteswap(inplace=True)
         return Norms(array)
-- 
2.43.0


From e5aa8a31aa7e29ee4c0faa8b0c79fea23f9a86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 11/19] fix: raise on word2vec vectors that are cut off by the
 end of the file

---
 src/finalfusion/compat/word2vec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..1ae447d 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -47,6 +47,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         for row in matrix:
             words.append(_read_binary_word(inf, b' ', lossy).strip())
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if len(array) != cols:
+                raise EOFError
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From 3ea0b795079300066e77f1820d667d06374c2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 12/19] fix: raise on text embeddings with a wrong number of
 components

---
 src/finalfusion/compat/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..0a5306c 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -145,6 +145,9 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     matrix = np.zeros((rows, cols), dtype=np.float32)
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
+        if len(parts) != cols + 1:
+            raise ValueError(
+                f"Expected {cols} components, not {len(parts) - 1}.")
         words.append(parts[0])
         row[:] = parts[1:]
     storage = NdArray(matrix)
-- 
2.43.0


From 5a4789cdb31d91242c70b5f5fc954c6226b4438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 13/19] fix: keep non-ASCII whitespace in word2vec words

---
 src/finalfusion/compat/word2vec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 1ae447d..4bf19fb 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,6 +2,7 @@
 Word2vec binary format.
 """
 
+import string
 import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
@@ -45,7 +46,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            words.append(
+                _read_binary_word(inf, b' ', lossy).strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if len(array) != cols:
                 raise EOFError
-- 
2.43.0


From 82ee2b0ab26255b21b2794da46142435ca6224f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 14/19] fix: leave out words that ffp-select cannot represent

---
 src/finalfusion/scripts/select.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..ceb769d 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -46,14 +46,18 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
         vocab = SimpleVocab(list(unique_words))
+        known = []
         for i, word in enumerate(vocab):
             try:
                 matrix[i] = embeds[word]
+                known.append(i)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
                 if not args.ignore_unk:
                     sys.exit(1)
+        matrix = matrix[known]
+        vocab = SimpleVocab([vocab.words[i] for i in known])
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-- 
2.43.0


From ce38e1ca59a1d731528d04a4a2ce9b2d216943c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:39 +0000
Subject: [PATCH 15/19] fix: support bucket_to_explicit on quantized storage

---
 src/finalfusion/storage/quantized.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..ac8eb3c 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,11 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype=None) -> np.ndarray:
+        array = self._quantizer.reconstruct(self._quantized_embeddings)
+        if self._norms is not None:
+            array = self._norms[:, None] * array
+        return array if dtype is None else array.astype(dtype)
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From a66819c36209d005d959b932d23e5f16dbc88529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:50 +0000
Subject: [PATCH 16/19] fix: write quantized storage in fastText format

---
 src/finalfusion/compat/fasttext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..ea9dc1b 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,7 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
+        _serialize_array_as_le(outf, np.asarray(embeds.storage))
 
 
 def _read_ft_header(file: BinaryIO):
@@ -295,7 +295,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0


From f399096c596a90824ff04d4d5af53dd3b266d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:15 +0000
Subject: [PATCH 17/19] fix: detect array chunks cut off inside their padding

---
 src/finalfusion/storage/ndarray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 12834e9..23a317e 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -10,8 +10,8 @@ from typing import BinaryIO, Tuple, Union, Iterator
 import numpy as np
 
 from finalfusion.io import ChunkIdentifier, TypeId, FinalfusionFormatError, find_chunk, \
-    _pad_float32, _read_required_binary, _write_binary, _serialize_array_as_le, \
-    _read_array_as_native
+    _pad_float32, _read_required_binary, _read_required_bytes, _write_binary, \
+    _serialize_array_as_le, _read_array_as_native
 from finalfusion.storage.storage import Storage
 
 
@@ -120,7 +120,7 @@ class NdArray(np.ndarray, Storage):
         if TypeId.f32 != type_id:
             raise FinalfusionFormatError(
                 f"Invalid Type, expected {TypeId.f32}, got {type_id}")
-        file.seek(_pad_float32(file.tell()), 1)
+        _read_required_bytes(file, _pad_float32(file.tell()))
         return rows, cols
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From e06dbfab46f71a951d00144da4b759cef3c1780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:52 +0000
Subject: [PATCH 18/19] fix: do not truncate an existing file when
 write_fasttext refuses a vocabulary

---
 src/finalfusion/compat/fasttext.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index ea9dc1b..ea73b5e 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -95,11 +95,11 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
     embeds : Embeddings
         Embeddings to write
     """
+    vocab = embeds.vocab
+    if not isinstance(vocab, FastTextVocab):
+        raise ValueError(
+            f'Expected FastTextVocab, not: {type(embeds.vocab).__name__}')
     with open(file, 'wb') as outf:
-        vocab = embeds.vocab
-        if not isinstance(vocab, FastTextVocab):
-            raise ValueError(
-                f'Expected FastTextVocab, not: {type(embeds.vocab).__name__}')
         _write_binary(outf, "<ii", _FT_MAGIC, 12)
         _write_ft_cfg(outf, embeds.dims, vocab.subword_indexer.n_buckets,
                       vocab.min_n, vocab.max_n)
-- 
2.43.0


From f6a17b885a4fab9771eeed3dfd830f441bb69c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:38 +0000
Subject: [PATCH 19/19] fix: memory-map storage of files given as descriptors

np.memmap was given file.name, which is the descriptor itself when the file was
opened from one, so load_finalfusion(fd, mmap=True) and the storage loaders raised
a TypeError. Map the open file instead.
---
 src/finalfusion/storage/ndarray.py   | 5 +++--
 src/finalfusion/storage/quantized.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 23a317e..18c5cd8 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -84,12 +84,13 @@ class NdArray(np.ndarray, Storage):
                 "Memmapping arrays is not supported on big endian platforms")
         rows, cols = NdArray._read_array_header(file)
         offset = file.tell()
-        file.seek(rows * cols * struct.calcsize('f'), 1)
-        array = np.memmap(file.name,
+        array = np.memmap(file,
                           dtype='<f4',
                           mode='r',
                           offset=offset,
                           shape=(rows, cols))
+        # memmap moves to the end of the file
+        file.seek(offset + rows * cols * struct.calcsize('f'))
         return NdArray(array)
 
     @staticmethod
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index ac8eb3c..b97e652 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -305,12 +305,13 @@ class QuantizedArray(Storage):
             file)
         n_embeddings, quantized_len = embeds_shape
         offset = file.tell()
-        file.seek(n_embeddings * quantized_len, 1)
-        quantized_embeddings = np.memmap(file.name,
+        quantized_embeddings = np.memmap(file,
                                          dtype=np.uint8,
                                          mode='r',
                                          offset=offset,
                                          shape=embeds_shape)
+        # memmap moves to the end of the file
+        file.seek(offset + n_embeddings * quantized_len)
         return QuantizedArray(quantizer, quantized_embeddings, norms)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0

