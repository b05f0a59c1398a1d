"""Stated bounds per property (go into the evidence and MANIFEST.json)."""
FIFU = ("word and n-gram texts of arbitrary symbolic length and content, matrix contents arbitrary (opaque), numbers of "
        "buckets and n-gram ranges symbolic over the whole 32-bit range (bucket exponent 1..40); ")
REAL = "floats are mathematical reals: rounding, overflow, NaN and infinities are not covered (replays use float32 with a tolerance)"
WORD = "words of 0..%s arbitrary code points (every Unicode scalar value)"
B = {
    "C01": (FIFU + "0..3 words (thorough: 6), 0..2 n-grams (thorough: 4), columns 1, 3 (thorough: 1, 2, 3, 300), quantizer "
            "shapes up to 3x3x2 (thorough: 5x256x4), symbolic numbers of rows, both array byte orders, sliced and strided arrays; plus "
            "single configurations of 260 words and of 300 n-grams and a list of fixed metadata values and unusual texts",
            "other numbers of words or n-grams per vocabulary than listed; metadata outside the listed kinds of values; big-endian hosts"),
    "C02": (FIFU + "as C01, plus single chunks at an arbitrary symbolic file offset; the array storage has at least one row",
            "more words than C01; a matrix of zero rows for array storage (numpy cannot map an empty region)"),
    "C03": (FIFU + "as C01 for what is loaded; the skipped chunk in front has arbitrary symbolic dimensions",
            "more words per vocabulary than C01"),
    "C04": (FIFU + "as C01, plus every single chunk type at an arbitrary symbolic file position",
            "more words per vocabulary than C01; the exact TOML text of the metadata (taken from the toml library)"),
    "C05": (FIFU + "file configurations of C01 (without the two long ones), cut at an arbitrary symbolic byte position",
            "file configurations beyond C01"),
    "C06": ("every 32-bit value of magic, version, chunk identifier and type fields; every sequence of up to 3 chunks "
            "(thorough: 4) out of metadata, vocabulary, storage, norms, and one more unknown chunk in every position; " + FIFU + "1 word",
            "longer chunk sequences; what follows the norms chunk is not looked at by the loader"),
    "C07": (WORD % "6 (thorough: 10)" + ", every min_n and max_n from -2 to the length plus 4, bracketed or not; single fixed long words "
            "(up to some hundred characters)", "other longer words"),
    "C08": (WORD % "3 (thorough: 5)" + ", every bucket exponent 1..63 and bucket count 1..2^32-1, every offset below 2^63, "
            "n-gram ranges 1:1, 1:3, 2:3, 3:6 (thorough: 8 ranges)", "longer words except for single fixed ones, other n-gram ranges; offset plus index beyond 64 bits"),
    "C09": ("n-grams of up to 4 (thorough: 6) arbitrary code points, every bucket exponent 1..63 and bucket count 1..2^32-1",
            "longer n-grams"),
    "C10": ("0..3 (thorough: 4) stored n-grams of 1..2 (thorough: 3) arbitrary code points with arbitrary integer indices; words of "
            "0..2 (thorough: 3) arbitrary code points", "more or longer n-grams"),
    "C11": ("0..3 (thorough: 4) words of 0..2 (thorough: 3) arbitrary code points, queries of 0..2 (thorough: 4) arbitrary code "
            "points, every bucket exponent and count, n-gram ranges 1:2, 3:4, 4:6 (thorough: 7 ranges); every pair of look-ups after another; "
            "one vocabulary of 260 words", "other numbers of words, longer words"),
    "C12": ("3 known words and 6 fixed unknown words per vocabulary type, 1..4 dimensions with arbitrary real contents, array and "
            "quantized storage, with and without norms, buffers and defaults, look-ups one after another; 300 words for iteration and look-up",
            "other word texts (see C08, C11); " + REAL),
    "C13": ("5 fixed word lists and up to two words of 1..2 (thorough: 3) arbitrary code points, 4 (thorough: 6) n-gram ranges, "
            "1..8 buckets, 1..2 dimensions with arbitrary real contents; a long word and a list of 36 words", "other larger vocabularies; " + REAL),
    "C14": ("0..4 (thorough: 5) words, k from 0 to n+2, arbitrary real matrix and (one dimension) query, skip sets, 1..2 dimensions; "
            "ffp-similar with 0..3 queries; sequences of two queries; 150 words with k up to 500 and nearly equal similarities", "other larger vocabularies and dimensions; order of exactly equal similarities; " + REAL),
    "C15": ("3..4 words, k 1..4 (thorough: 0..6), 1..2 dimensions with arbitrary real contents, skip sets, --include subsets, one or several "
            "query lines from a file or stdin",
            "larger vocabularies and dimensions; " + REAL),
    "C16": ("0..3 rows, up to 2x3x2 (thorough: 3x3x2) subquantizers, centroids and dimensions with arbitrary real contents and "
            "arbitrary codes; 129 and 256 centroids; strided code arrays and slices of slices", "other larger arrays; " + REAL),
    "C17": ("1..3 words of 0..3 (thorough: 4) arbitrary code points other than ASCII whitespace, 1..3 (thorough: 5) dimensions with "
            "arbitrary real contents and a non-zero vector per word, both array byte orders and memory layouts; one list of 130 words", "zero vectors (their norm is zero); longer words; " + REAL),
    "C18": ("as C17 for both text formats; files with one line of 0..5 components in every position of up to 3 lines",
            "zero vectors; longer words; the decimal text of a float (taken to round-trip); " + REAL),
    "C19": ("5 fixed word lists and one word of 1..2 (thorough: 3) arbitrary code points, 5 n-gram ranges, 1..3 (thorough: 7) "
            "buckets, 1..3 dimensions with arbitrary real contents, arbitrary configuration integers, both byte orders and layouts",
            "zero mean vectors; larger models; " + REAL),
    "C20": ("0..3 (thorough: 6) words, arbitrary symbolic numbers of rows and norms up to 2^50, every sequence of up to 3 "
            "(thorough: 4) assignments out of 7 kinds, arrays of 0..4 dimensions of arbitrary size in 8 element types",
            "other element types; subclasses of the part types"),
    "C21": ("2..4 known words (fixed texts, or arbitrary single characters), word lists from a file or stdin, an existing output file, words with "
            "inner white space, arbitrary real matrix, input metadata, all input formats",
            "blank lines in the word list; longer lists; " + REAL),
    "C22": ("1..3 words of 0..2 (thorough: 3) arbitrary code points (several words in quick: up to U+07FF), 1..2 (thorough: 3) "
            "dimensions, fastText models of 1..3 fixed words, cut at an arbitrary symbolic byte position",
            "larger files; a cut inside the last line of a text-dims file can look like a complete shorter number"),
    "C23": ("every pair of formats, 3 fixed words, 1..2 dimensions with arbitrary real contents, every vocabulary and storage "
            "type for finalfusion input, one malformed UTF-8 word per format, every format's file named as every other format", "other word texts (see C17-C19); reading from stdin; " + REAL),
    "C24": ("hash indexers with arbitrary bounds and bucket numbers; vocabularies and explicit indexers of 0..2 (thorough: 3) "
            "words of 0..2 (thorough: 3) arbitrary code points, arbitrary explicit indices",
            "longer lists and words; subclasses"),
    "C25": ("one word of 1..3 (thorough: 4) arbitrary bytes (no ASCII whitespace; fastText: no NUL), alone, first, last or inside "
            "another word, and as word or n-gram of every finalfusion vocabulary kind; two-dimensional fixed vectors", "longer byte sequences; several malformed words; words made equal by the replacement"),
    "C26": ("3 words, 1..2 (thorough: 3) dimensions with arbitrary real contents, all vocabulary types, array and quantized storage; every "
            "operation before and after every other one, and after changes of the norms, the metadata and a row",
            "longer histories; " + REAL),
    "C27": (FIFU + "4 (thorough: 8) combinations of vocabulary and storage types with 1..2 (thorough: 3) words; 3 fixed words and arbitrary real "
            "contents for the other formats; str, bytes, PathLike and file descriptor for every loader and writer; the file that is replaced is "
            "longer by any number of bytes",
            "descriptors not at the start of the file; pipes and other files that cannot be sought; files changed by someone else meanwhile; " + REAL),
    "C28": ("0..4 (thorough: 6) rows and 1..2 (thorough: 3) columns, 0..3 (thorough: 5) norms, with arbitrary real contents; every integer index, slices with every start and stop from "
            "-n-2 to n+2 and steps 1, 2, -1, -2, slices of slices, both byte orders, row- and column-major and strided arrays, memory-mapped or not",
            "larger arrays; other steps; other numpy operations on storage; " + REAL),
    "C29": ("1 and 3 (thorough: 1..4) fixed words, 1..2 (thorough: 1, 2, 3, 5) dimensions with arbitrary real contents, all vocabulary types, array and "
            "quantized storage, both byte orders and memory layouts; read: text files with fixed numbers in 7 layouts, word2vec files in 3",
            "other word texts (see C17-C19); the number of digits of a decimal number; what fastText files hold behind the input matrix; " + REAL),
}
