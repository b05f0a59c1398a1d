"""Regenerates properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/finalfusion/" + f if not f.startswith("src/") else f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "Finalfusion files round-trip every component of the embeddings",
  "Writing any valid embeddings to a finalfusion file and loading that file yields the same words in the same order with the same indices, the same subword parameters and n-gram mapping, bit-identical storage contents and shape, bit-identical norms, and the same metadata. This holds for each of the four vocabulary types, array and quantized storage (with or without projection and norms), with and without a norms and a metadata chunk, and for arrays held in either byte order.",
  ["inputs", "configurations"], "every word list (any word length, any number of UTF-8 bytes per character), every matrix shape and content, every combination of chunk types",
  "the tests round-trip a handful of fixture files with fixed sizes and offsets; sizes, word byte lengths and the resulting file offsets are unbounded inputs",
  ["embeddings.py", "io.py", "metadata.py", "norms.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py"],
  [("write_chunk/read_chunk pairs", "every Chunk subclass"), ("Embeddings.write / load_finalfusion", "embeddings.py")],
  observe=["Embeddings.write", "load_finalfusion", "Chunk.write", "load_vocab", "load_storage", "load_norms", "load_metadata"])
p("C02", "Memory-mapped and eager loading return the same embeddings",
  "For every finalfusion file, loading with memory mapping and loading eagerly give the same storage shape and contents, and everything after the storage in the file (norms) is read identically. This holds for array and quantized storage and for whatever precedes the storage in the file.",
  ["inputs", "configurations"], "every storage shape and content at every file offset, with every combination of other chunks",
  "tests memory-map a few fixture files whose storage sits at one particular offset",
  ["storage/ndarray.py", "storage/quantized.py", "storage/__init__.py", "embeddings.py", "io.py"],
  [("NdArray.mmap_chunk", "storage/ndarray.py"), ("QuantizedArray.mmap_chunk", "storage/quantized.py")],
  observe=["load_finalfusion(mmap=)", "load_storage(mmap=)", "load_ndarray(mmap=)", "load_quantized_array(mmap=)"])
p("C03", "Every component can be loaded on its own from any finalfusion file",
  "The length recorded in the header of every written chunk is exactly the number of bytes between the end of that header and the next chunk (or the end of the file). Consequently the single-component loaders (vocabulary, storage, norms, metadata) return the same component as the full load from any file that contains it, whatever chunks precede it, and report ValueError when the file does not contain it.",
  ["inputs", "configurations"], "every sequence of chunks, every word list, shape and metadata text in the chunks that have to be skipped",
  "tests load single components from fixtures in which the skipped chunks happen to have one size and type; no test skips an explicit vocabulary or a quantized array",
  ["io.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "vocab/__init__.py", "storage/__init__.py"],
  [("chunk length computations", "write_chunk of every Chunk"), ("find_chunk", "io.py")],
  observe=["load_vocab", "load_storage", "load_norms", "load_metadata", "load_simple_vocab", "load_finalfusion_bucket_vocab", "load_fasttext_vocab", "load_explicit_vocab", "load_ndarray", "load_quantized_array"])
p("C04", "Written files follow the finalfusion wire format",
  "A written file starts with the magic FiFu, version 0 and the identifiers of exactly the chunks that follow, in order (metadata, vocabulary, storage, norms). Every chunk then consists of its identifier, its length and its fields in the documented order and width, all little-endian irrespective of the byte order of the array in memory, with float data starting at a file offset that is a multiple of four after one to four bytes of padding, so that any other finalfusion implementation can read it.",
  ["inputs", "configurations"], "every chunk type at every file offset, every word list, shape and array byte order",
  "tests only read files back with the same library, so a writer and a reader that change together go unnoticed, and only a few alignments occur",
  ["io.py", "embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
  [("write_chunk", "every Chunk"), ("_pad_float32, _serialize_array_as_le", "io.py")],
  observe=["bytes of the written file"])
p("C05", "A truncated finalfusion file is never loaded as if it were complete",
  "If a valid finalfusion file is cut off at any byte, loading it (eagerly or memory-mapped, as a whole or one component) either raises an exception or, where everything that was asked for lies entirely before the cut, returns exactly what the complete file would have returned. No loader returns shortened words, missing items, shorter norms or a smaller matrix; the single exception is a cut exactly between the storage and a trailing norms chunk, which reads as embeddings without norms.",
  ["crash_points", "inputs"], "every truncation point of every file: any chunk types, word lists and shapes",
  "no test truncates a file; the number of cut positions is unbounded",
  ["io.py", "embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
  [("_read_binary length check", "io.py"), ("_read_items", "vocab/vocab.py"), ("array reads", "io.py, norms.py")],
  observe=["load_finalfusion", "load_vocab", "load_storage", "load_norms", "load_metadata"])
p("C06", "Files with a wrong signature, type or chunk order are rejected",
  "Loading raises an exception, and never returns data, when the magic or version differs from the supported one, when a chunk identifier is unknown, when an array or norms chunk declares an element type other than the supported one, or when the chunks do not come as optional metadata, one vocabulary, one storage, optional norms. (What follows the norms is not looked at.)",
  ["inputs"], "every value of the magic, version, chunk identifier and type fields, and every order of chunks",
  "tests feed one or two malformed files; the header fields range over 2^32 values each",
  ["io.py", "embeddings.py", "storage/ndarray.py", "storage/quantized.py", "norms.py"],
  [("Header.read_chunk", "io.py"), ("type id checks", "storage/*.py, norms.py"), ("chunk dispatch", "load_finalfusion")],
  observe=["load_finalfusion", "load_storage", "load_norms", "load_vocab", "load_metadata"])
p("C07", "N-gram extraction returns exactly the n-grams of the bracketed word",
  "For every word and every 0 < min_n <= max_n, n-gram extraction returns, for each start position from left to right, the substrings of length max_n down to min_n (in characters, not bytes) that fit into the word, each exactly once, after adding < and > when bracketing is on. Words shorter than min_n give an empty list, and invalid bounds are refused.",
  ["inputs"], "every word (any characters, including non-BMP), every n-gram range, bracketed or not",
  "tests use three words and the default range",
  ["subword/ngrams.pyx", "vocab/subword.py"],
  [("nested loop over starts and lengths", "ngrams.pyx")],
  observe=["finalfusion.subword.ngrams", "SubwordVocab.subwords"])
p("C08", "Bulk subword indices agree with single n-gram lookup and stay in range",
  "For every word, offset and n-gram range, the hash-based indexers return one index per extracted n-gram, in the order of the n-gram extraction, and each is the offset plus the index that looking up that n-gram alone gives. Every index returned is at least the offset and smaller than the offset plus the indexer's upper bound, and the n-grams returned alongside are the extracted n-grams.",
  ["inputs", "configurations"], "every word (any characters), n-gram range, bucket count and offset",
  "tests compare a few fixed words against stored bucket lists for one configuration",
  ["subword/hash_indexers.pyx", "subword/ngrams.pyx"],
  [("subword_indices of both hash indexers", "hash_indexers.pyx"), ("find_utf8_boundaries", "hash_indexers.pyx")],
  observe=["FinalfusionHashIndexer", "FastTextIndexer"])
p("C09", "Hash indexers compute the bucket other implementations compute",
  "The finalfusion indexer maps an n-gram to the low buckets_exp bits of the 64-bit FNV-1a hash of the n-gram's character count as 8 little-endian bytes followed by every code point as 4 little-endian bytes. The fastText indexer maps an n-gram to fastText's 32-bit hash of its UTF-8 bytes (every byte sign-extended before the xor) modulo the number of buckets.",
  ["inputs", "configurations"], "every n-gram (any code points), every bucket exponent and bucket count",
  "tests compare a few fixed n-grams; files written by other tools rely on all of them",
  ["subword/hash_indexers.pyx", "src/fnv/hash_64a.c", "src/fnv/fnv.h", "src/include/portable_endian.h"],
  [("fifu_hash_ngram, ft_hash_ngram", "hash_indexers.pyx"), ("fnv_64a_buf", "src/fnv/hash_64a.c")],
  observe=["FinalfusionHashIndexer.__call__", "FastTextIndexer.__call__", "subword_indices"])
p("C10", "Explicit n-gram indexers return exactly the stored mapping",
  "An explicit indexer can only be built from unique n-grams whose indices are exactly the dense range from zero to its upper bound; anything else is refused. It maps each stored n-gram to its stored index and nothing else to anything, and the subword indices of a word are the offset plus the stored indices of the word's stored n-grams, in extraction order.",
  ["inputs"], "every n-gram list, every n-gram to index mapping, every word, range and offset",
  "tests build two fixed indexers",
  ["subword/explicit_indexer.pyx"],
  [("constructor assertions", "explicit_indexer.pyx"), ("subword_indices", "explicit_indexer.pyx")],
  observe=["ExplicitIndexer"])
p("C11", "Vocabulary lookup is a bijection on words with in-range subword fallback",
  "A vocabulary with n words (duplicates are refused) maps its i-th word to index i and no other string to a word index. Subword vocabularies answer other strings with a non-empty list of subword indices, all at least n and below the vocabulary's upper bound, or, when there are none, with the given default (KeyError for item access); simple vocabularies answer other strings with the default or KeyError. Length, iteration and membership agree with that mapping, and the subwords, subword indices and n-gram range that a subword vocabulary reports are those of its indexer, offset by n.",
  ["inputs"], "every word list and every query string, for all four vocabulary types",
  "tests use fixed small word lists and a few queries",
  ["vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx"],
  [("_validate_items_and_create_index", "vocab/vocab.py"), ("SubwordVocab.idx, __getitem__", "vocab/subword.py")],
  observe=["Vocab.idx", "Vocab.__getitem__", "Vocab.__contains__", "Vocab.upper_bound"])
p("C12", "Embedding lookup returns the word's row or the normalised subword sum",
  "Looking up a known word returns exactly its row of the storage and, when norms are present, its stored norm; looking up an unknown word of a subword vocabulary returns the sum of the rows of its subword indices divided by the L2 norm of that sum, with that norm. When no index exists, item access raises KeyError and the other lookups return the default, writing it to the output buffer if both were given and leaving the buffer untouched otherwise; an output buffer never changes the result, and the storage is never modified. Iterating yields the words in order, each with its row (and its norm if there are norms).",
  ["inputs", "histories"], "every vocabulary, matrix, query, default and output buffer",
  "tests look up a few words of fixtures",
  ["embeddings.py", "vocab/vocab.py", "vocab/subword.py", "storage/ndarray.py", "norms.py"],
  [("Embeddings._embedding", "embeddings.py"), ("Embeddings.embedding, embedding_with_norm, __getitem__", "embeddings.py")],
  observe=["Embeddings.embedding", "Embeddings.embedding_with_norm", "Embeddings.__getitem__"])
p("C13", "Bucket-to-explicit conversion preserves every in-vocabulary embedding",
  "Converting embeddings with a hash-based vocabulary to an explicit vocabulary keeps the words, their rows and the norms, and gives every n-gram of every word exactly the row its bucket had, with n-grams sharing a row exactly if they shared a bucket. The new indices are dense, the explicit n-grams are exactly the n-grams of the words, and the conversion works for array and quantized storage and for words without n-grams.",
  ["inputs", "configurations"], "every word list, n-gram range, bucket count (including heavy collisions), storage",
  "tests convert one fixture",
  ["vocab/subword.py", "embeddings.py", "subword/explicit_indexer.pyx", "subword/hash_indexers.pyx", "storage/quantized.py"],
  [("_bucket_to_explicit", "vocab/subword.py"), ("Embeddings.bucket_to_explicit", "embeddings.py")],
  observe=["FinalfusionBucketVocab.to_explicit", "FastTextVocab.to_explicit", "Embeddings.bucket_to_explicit"])
p("C14", "Similarity queries return the k most similar allowed words in order",
  "A similarity query returns the min(k, number of allowed words) vocabulary words with the highest dot product with the query, sorted by descending similarity, each once and with its own similarity. Words in the skip set (for word queries, the query word) never appear, subword rows are never candidates, and any k >= 0 works, also when it exceeds the vocabulary size (k is 10 unless given); a word without an embedding gives None. ffp-similar prints exactly these results for every query line that is not blank, and nothing for words without an embedding.",
  ["inputs", "configurations"], "every matrix, query, skip set and k, for array and quantized storage",
  "tests query one fixture with k = 10 and 40 against fixed result lists",
  ["embeddings.py", "storage/quantized.py"],
  [("Embeddings._similarity", "embeddings.py"), ("SimilarityResult ordering", "embeddings.py")],
  observe=["Embeddings.word_similarity", "Embeddings.embedding_similarity"])
p("C15", "Analogy queries use b - a + c and skip exactly the excluded query words",
  "An analogy query for (a, b, c) ranks words by their dot product with the L2-normalised vector b - a + c, excludes exactly a, b and c by default or exactly the given skip set, and returns None when any of the three has no embedding; it returns one word unless k is given, ffp-analogy up to ten. On the command line, the query parts named with --include are allowed as answers and exactly the other query parts are skipped.",
  ["inputs", "configurations"], "every embedding matrix, triple of query words (also repeated ones), skip set, include set and k",
  "tests run five fixed queries; only some include sets occur",
  ["embeddings.py", "scripts/analogy.py"],
  [("Embeddings.analogy", "embeddings.py"), ("get_skips", "scripts/analogy.py")],
  observe=["Embeddings.analogy", "ffp-analogy"])
p("C16", "Quantized storage reconstructs the same row through every access path",
  "Row i of a quantized array is the concatenation of the centroids selected by its codes, multiplied by the projection matrix if there is one and scaled by its norm if there are norms. Integer, list, array and slice indexing, iteration, conversion to an array, lookups into an output buffer and slices of slices all return that same row for the same i.",
  ["inputs", "configurations"], "every codebook, code matrix, projection, norms and index expression",
  "tests compare one fixture approximately against unquantized vectors through two access paths",
  ["storage/quantized.py"],
  [("PQ.reconstruct", "storage/quantized.py"), ("QuantizedArray.embedding, __getitem__, __iter__, __array__", "storage/quantized.py")],
  observe=["QuantizedArray"])
p("C17", "word2vec binary files round-trip words and vectors",
  "Writing embeddings in word2vec format and loading them gives the same words in the same order and the same vectors: the loaded rows have unit length, and row times loaded norm equals the original row times its original norm (or the original row without norms); without norms the file has the components with enough digits to give the same 32-bit floats. This holds for every word without ASCII whitespace, including words with non-ASCII whitespace and empty words; for subword vocabularies the known words are written.",
  ["inputs", "configurations"], "every word list without ASCII whitespace, every matrix, with or without norms, every vocabulary and storage type",
  "tests round-trip two fixtures with plain ASCII words",
  ["compat/word2vec.py", "_util.py", "io.py"],
  [("write_word2vec / load_word2vec", "compat/word2vec.py"), ("_normalize_matrix", "_util.py")],
  observe=["write_word2vec", "load_word2vec"])
p("C18", "Text and text-dims files round-trip words and vectors",
  "Writing embeddings in text or text-dims format and loading them gives the same words in the same order and the same vectors: the loaded rows have unit length, and row times loaded norm equals the original row times its original norm (or the original row without norms). This holds for every word without ASCII whitespace, including words with non-ASCII whitespace, and whatever the locale is; every line's component count must match the dimensionality, otherwise loading raises.",
  ["inputs", "configurations"], "every word list without ASCII whitespace, every matrix, with or without norms, both formats",
  "tests round-trip two fixtures and one non-ASCII whitespace word",
  ["compat/text.py", "_util.py"],
  [("_write_text / _load_text", "compat/text.py"), ("_normalize_matrix", "_util.py")],
  observe=["write_text", "load_text", "write_text_dims", "load_text_dims"])
p("C19", "fastText files round-trip and precompute word vectors correctly",
  "Loading a fastText file gives each word the L2-normalised mean of its own vector and the vectors of its subwords (its norm goes to the norms), leaves the subword rows as stored, and keeps words, n-gram settings and the training configuration (as metadata). Writing embeddings with a fastText vocabulary and loading the file again gives the same words, n-gram settings, bucket count, subword rows, word rows and norms (up to rounding); other vocabularies are refused without touching an existing file. Files with another magic or version, labels, a pruned vocabulary, a quantized matrix, non-word entries or too small a matrix are refused.",
  ["inputs", "configurations"], "every word list without NUL characters, every matrix, n-gram range and bucket count, with or without norms",
  "tests round-trip one fixture",
  ["compat/fasttext.py", "_util.py", "subword/hash_indexers.pyx"],
  [("_precompute_word_vecs", "compat/fasttext.py"), ("_write_ft_storage_subwords", "compat/fasttext.py"), ("_read_ft_cfg/_write_ft_cfg, _read_ft_vocab/_write_ft_vocab", "compat/fasttext.py")],
  observe=["load_fasttext", "write_fasttext"])
p("C20", "Embeddings cannot be assembled from parts that do not fit together",
  "Constructing embeddings (also by loading a finalfusion file) or setting their norms or metadata succeeds exactly if the storage has as many rows as the vocabulary's upper bound, the norms (if any) have one entry per word, and all parts have the right type; otherwise it raises and existing embeddings keep their previous state. Array storage accepts exactly two-dimensional float32 arrays and norms exactly one-dimensional float32 arrays.",
  ["inputs", "histories"], "every combination of vocabulary size, storage shape, norms length, dimensionality and element type, and every sequence of norm and metadata assignments",
  "tests try a few mismatches",
  ["embeddings.py", "norms.py", "storage/ndarray.py"],
  [("Embeddings._check_requirements, _norms_compat, setters", "embeddings.py"), ("Norms.__new__", "norms.py"), ("NdArray.__new__", "storage/ndarray.py")],
  observe=["Embeddings.__init__", "Embeddings.norms", "Embeddings.metadata", "NdArray", "Norms"])
p("C21", "ffp-select writes exactly the requested words with their embeddings",
  "The embeddings written by ffp-select contain each requested word that the input can represent exactly once, with exactly the embedding the input gives for it, and no other words. A word that cannot be represented makes the tool exit with status 1 without writing, or is left out when unknown words are ignored. The metadata of the output names the input file and contains the input's metadata.",
  ["inputs", "configurations"], "every word list (duplicates, unknown words) against every input vocabulary",
  "tests select from two word lists in which every word is representable",
  ["scripts/select.py", "embeddings.py"],
  [("main", "scripts/select.py")],
  observe=["ffp-select"])
p("C22", "Truncated word2vec, fastText and text-dims files are rejected",
  "If a valid word2vec, fastText or text-dims file is cut off before the end of its last vector (for text-dims: before the last line), loading it raises an exception and never returns embeddings with missing words, shortened words or partially filled or repeated components.",
  ["crash_points", "inputs"], "every truncation point of every such file",
  "no test truncates a file",
  ["compat/word2vec.py", "compat/fasttext.py", "compat/text.py"],
  [("load_word2vec", "compat/word2vec.py"), ("_read_ft_storage", "compat/fasttext.py"), ("_load_text", "compat/text.py")],
  observe=["load_word2vec", "load_fasttext", "load_text_dims"])
p("C23", "Format conversion dispatches every format to its own reader and writer",
  "ffp-convert and the other tools load the input with the reader of the named format and write with the writer of the named format, passing on the lossy and memory-map options, so that for every pair of supported formats the output contains the known words of the input in order with the same un-normalised vectors.",
  ["inputs", "configurations"], "every pair of formats, every word list and matrix",
  "tests convert fixed fixtures for the pairs they list",
  ["scripts/util.py", "scripts/convert.py", "scripts/bucket_to_explicit.py", "compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "embeddings.py"],
  [("Format.load, Format.write", "scripts/util.py"), ("main", "scripts/convert.py")],
  observe=["ffp-convert", "Format"])
p("C24", "Indexers and vocabularies compare equal exactly if they are interchangeable",
  "Two subword indexers compare equal exactly if they are of the same kind and have the same n-gram range and the same bucket setting (hash indexers) or the same n-grams in the same order with the same indices (explicit indexer). Two vocabularies compare equal exactly if they are of the same type, list the same words in the same order and have equal subword indexers. Equality is symmetric, != is its negation, and nothing else compares equal to an indexer or vocabulary.",
  ["inputs"], "every pair of indexers and vocabularies",
  "tests compare a few pairs that are equal, or differ in the one way that was thought of",
  ["vocab/vocab.py", "vocab/subword.py", "subword/hash_indexers.pyx", "subword/explicit_indexer.pyx"],
  [("Vocab.__eq__", "vocab/vocab.py"), ("SubwordVocab.__eq__", "vocab/subword.py"), ("__eq__ of the indexers", "subword/*.pyx")],
  observe=["==", "!="])
p("C25", "Malformed UTF-8 in words is refused, or replaced when lossy reading is requested",
  "Loading a word2vec, text, text-dims or fastText file raises when a word is not well-formed UTF-8, unless lossy is set; with lossy every malformed sequence in a word becomes U+FFFD (as in Python's 'replace' error handler), and well-formed words, the number of words and all vectors are unaffected. Well-formed files load the same with and without lossy. Finalfusion vocabularies with a malformed word or n-gram are always refused.",
  ["inputs"], "every byte sequence as a word",
  "tests read one fixture with one malformed word per format",
  ["compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "vocab/vocab.py"],
  [("_read_binary_word", "compat/word2vec.py, compat/fasttext.py"), ("load_text, load_text_dims", "compat/text.py"), ("_read_items", "vocab/vocab.py")],
  observe=["load_word2vec", "load_text", "load_text_dims", "load_fasttext", "load_vocab"])
p("C26", "Using embeddings never changes them; results depend only on current contents",
  "Looking up words, iterating, slicing, querying similarities and analogies, converting to an explicit vocabulary and writing in any format leave the embeddings as they were: words, indices, subword settings, storage, norms and metadata keep their contents bit for bit, and so do memory-mapped files and the arguments other than output buffers (query vectors, defaults, skip sets). Whatever was done before, repeating an operation gives the same result, and after assigning norms or metadata or changing a row of the storage every operation gives what it gives for freshly created embeddings with these contents.",
  ["histories", "inputs"], "every sequence of operations on every embeddings (all vocabulary and storage types, in memory or memory-mapped)",
  "tests use fixtures once and compare single results; what an operation leaves behind in shared arrays or caches is not looked at",
  ["embeddings.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "vocab/vocab.py", "vocab/subword.py", "compat/word2vec.py", "compat/text.py", "compat/fasttext.py"],
  [("lookups and queries", "embeddings.py"), ("un-normalisation in the writers", "compat/*.py"), ("Embeddings.chunks, setters", "embeddings.py")],
  observe=["Embeddings", "write_word2vec", "write_text", "write_text_dims", "write_fasttext"])
p("C27", "Every kind of file argument works alike, and writing replaces the whole file",
  "Every loader and writer accepts each documented kind of file argument (path as str, bytes or PathLike, and open file descriptor), reads the same contents or writes the same bytes for each of them, memory-mapped or not, and a file that is written to consists of exactly the new contents afterwards, whatever it held before.",
  ["inputs", "configurations"], "every loader and writer, every kind of file argument, every contents of the file before and after",
  "tests pass str paths and write to new temporary files",
  ["embeddings.py", "io.py", "norms.py", "metadata.py", "storage/__init__.py", "storage/ndarray.py", "storage/quantized.py", "vocab/__init__.py", "vocab/subword.py", "vocab/simple_vocab.py", "compat/word2vec.py", "compat/text.py", "compat/fasttext.py"],
  [("load_finalfusion, Embeddings.write", "embeddings.py"), ("Chunk.write", "io.py"), ("mmap_chunk", "storage/ndarray.py, storage/quantized.py"), ("load_*, write_*", "compat/*.py")],
  observe=["load_*", "write_*", "Chunk.write", "Embeddings.write"])
p("C28", "Array storage and norms give the same rows through every access path",
  "Array storage and norms, in memory or memory-mapped, give the same contents through integer, negative, list, array, mask and component indexing, iteration, length, shape and conversion to an array; an index out of range raises IndexError. Slicing with any bounds and step gives storage (or norms) of exactly the rows that Python's slicing selects, backed by the same array, which can again be indexed, sliced, written and used in embeddings; indexing with integers, lists or arrays gives plain numpy arrays.",
  ["inputs"], "every matrix and norms, every index, every slice and slice of a slice",
  "tests slice a few fixed arrays with positive bounds",
  ["storage/ndarray.py", "norms.py", "embeddings.py", "io.py"],
  [("NdArray.__getitem__, __iter__, __new__", "storage/ndarray.py"), ("Norms.__getitem__", "norms.py")],
  observe=["NdArray", "Norms", "Embeddings.storage", "Embeddings.norms"])
p("C29", "word2vec, text and fastText files have the layout other programs use",
  "Files written in word2vec format are the line 'rows cols', then per word its UTF-8 bytes, a space, the un-normalised vector as little-endian 32-bit floats and a newline, and nothing else; text files are UTF-8 (whatever the locale) with one line per word: the word, the separator and the space-separated components of the un-normalised vector (all digits needed to get the same 32-bit floats), for text-dims after the line 'rows cols'; fastText files consist of magic, version 12, the configuration (dimensions, buckets and n-gram range of the embeddings, the documented defaults otherwise), the words as unpruned, unlabelled entries and an unquantized matrix whose word rows have the subword vectors taken out again. Only the known words are written to word2vec and text files. Files of other programs in these formats are read alike: word2vec files with or without newlines, text files with any ASCII whitespace between and after the fields, either line ending, with or without a newline at the end.",
  ["inputs", "configurations"], "every word list and matrix, every vocabulary and storage type, every permitted layout of the file",
  "tests read fixtures of one layout, and read back what they wrote",
  ["compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "io.py"],
  [("write_word2vec, load_word2vec", "compat/word2vec.py"), ("_write_text, _load_text", "compat/text.py"), ("write_fasttext", "compat/fasttext.py")],
  observe=["write_word2vec", "write_text", "write_text_dims", "write_fasttext", "load_word2vec", "load_text", "load_text_dims"])
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
