"""C23: format dispatch of the tools."""
from . import emb, c17, c19, c21

WITNESSES = ("converted", "norms", "subwords", "lossy", "strict", "mmap", "explicit", "similar", "analogy", "direct", "default", "named-refused", "named-read")
FORMATS = ("finalfusion", "fasttext", "word2vec", "textdims", "text")
WORDS = ["ab", "ü\u00a0x", "c"]


def cases(tier):
    out = []
    for a in FORMATS:
        for b in FORMATS:
            for norms in ((False, True) if a == "finalfusion" else (False, )):
                ft = a == "fasttext" or b == "fasttext"
                if b == "fasttext" and a not in ("finalfusion", "fasttext"):
                    out.append(dict(name="refused-%s-%s" % (a, b), mode="refused", a=a, b=b, vkind="simple", norms=False))
                    continue
                for mm in ((False, True) if a == "finalfusion" else (False, )):
                    out.append(dict(name="conv-%s-%s%s%s" % (a, b, "-norms" * norms, "-mmap" * mm), mode="convert", a=a, b=b,
                                    norms=norms, mmap=mm, vkind="fasttext" if ft else "simple", skind="array"))
    for b in ("finalfusion", "word2vec", "text", "textdims"):
        for vk, sk in (("bucket", "array"), ("explicit", "quant"), ("bucket", "quant+norms"), ("simple", "quant+proj")):
            for mm in (False, True):
                out.append(dict(name="conv-%s-%s-%s%s" % (vk, sk, b, "-mmap" * mm), mode="convert", a="finalfusion", b=b, norms=False,
                                mmap=mm, vkind=vk, skind=sk))
    out.append(dict(name="conv-quant-fasttext", mode="convert", a="finalfusion", b="fasttext", norms=False, mmap=False,
                    vkind="fasttext", skind="quant"))
    out.append(dict(name="conv-defaults", mode="convert", a="word2vec", b="finalfusion", norms=False, mmap=False, vkind="simple",
                    skind="array", short=True))
    for a in ("word2vec", "text", "textdims", "fasttext"):
        for lossy in (False, True):
            out.append(dict(name="bytes-%s%s" % (a, "-lossy" * lossy), mode="bytes", a=a, lossy=lossy))
    for a in ("finalfusion", "fasttext"):
        for mm in (False, True):
            out.append(dict(name="explicit-%s%s" % (a, "-mmap" * mm), mode="explicit", a=a, mmap=mm))
    for data in FORMATS + ("any", ):
        for a in FORMATS:
            out.append(dict(name="named-%s-as-%s" % (data, a), mode="named", data=data, a=a))
    for a in FORMATS:
        for tool in ("similar", "analogy"):
            out.append(dict(name="%s-%s" % (tool, a), mode=tool, a=a))
        out.append(dict(name="direct-%s" % a, mode="direct", a=a))
    return out


def build(E, case, words=WORDS, cols=2):
    e = emb.build(E, case["vkind"], words, case.get("skind", "array"), cols, case.get("norms", False), size=2 if case["vkind"] ==
                  "fasttext" else 1, grams=["ab", "<c>"], codes=(0, 1, 1, 0, 1))
    e.plain = []
    for i in range(e.n):
        r = e.rows[i]
        if case.get("norms"):
            r = [x * e.norms[i] for x in r]
        E.assume(emb.total([x * x for x in r]) > (0 if E.symbolic else 1e-3))
        e.plain.append(r)
    return e


def scale(e, i):
    """the numbers the rounding of a vector depends on: fastText vectors are computed from those of the subwords"""
    return e.plain[i] if e.kind != "fasttext" else [4 * x for r in e.rows for x in r] + e.plain[i]


def write_as(E, fmt, p, e):
    C = E.mod("finalfusion.compat")
    if fmt == "finalfusion":
        return e.write(p)
    return {"word2vec": C.write_word2vec, "text": C.write_text, "textdims": C.write_text_dims, "fasttext": C.write_fasttext}[fmt](p, e)


def run(E, case):
    return globals()["run_" + case["mode"]](E, case)


def run_convert(E, case):
    a, b = case["a"], case["b"]
    e = build(E, case)
    p, o = E.path("in"), E.path("out")
    write_as(E, a, p, e.emb)
    argv = [p, o]
    if not case.get("short"):
        argv += ["-f", a, "-t", b]
    else:
        E.note("default")
    if case["mmap"]:
        argv.append("--mmap")
        E.note("mmap")
    r = E.script("finalfusion.scripts.convert", argv)
    E.check(r.exc is None and r.code == 0, "ffp-convert succeeds")
    # the format's own loader
    got = c21.load_as(E, b, o)
    E.note("converted")
    if case["norms"]:
        E.note("norms")
    if case["vkind"] != "simple":
        E.note("subwords")
    if a == b == "finalfusion":
        E.check((got.norms is None) == (e.norms is None), "norms present as in the input")
    E.check(len(got.vocab) == e.n, "number of words")
    E.check(list(got.vocab.words) == list(e.words), "words in order")
    for i in range(e.n):
        row = got.storage[i]
        E.check(row.shape[0] == e.cols, "dimensionality")
        nr = 1 if got.norms is None else got.norms[i]
        for j in range(e.cols):
            E.check(E.tight(row[j] * nr, e.plain[i][j], scale(e, i)), "un-normalised vector")
    if b == "finalfusion":
        kinds = {"simple": "SimpleVocab", "bucket": "FinalfusionBucketVocab", "fasttext": "FastTextVocab", "explicit": "ExplicitVocab"}
        E.check(type(got.vocab).__name__ == kinds[e.kind], "vocabulary type is kept")
    if b in ("finalfusion", "fasttext") and e.kind != "simple":
        E.check(got.storage.shape[0] == e.ub, "subword rows are kept")
        for i in range(e.n, e.ub):
            for j in range(e.cols):
                E.check(E.tight(got.storage[i][j], e.rows[i][j], e.rows[i]), "subword rows are kept")


def run_refused(E, case):
    e = build(E, case)
    p, o = E.path("in"), E.path("out")
    write_as(E, case["a"], p, e.emb)
    r = E.script("finalfusion.scripts.convert", [p, o, "-f", case["a"], "-t", case["b"]])
    E.check(r.exc is not None or r.code != 0, "no fastText file without a fastText vocabulary")


def run_bytes(E, case):
    """a word that is not valid UTF-8"""
    a = case["a"]
    p, o = E.path("in"), E.path("out")
    word = b"a\xffb"
    if a == "word2vec":
        data = [b"1 2\n", word, b" ", E.pack("<2f", 3.0, 4.0), b"\n"]
    elif a == "fasttext":
        c = dict(cols=2, b=1, lo=3, hi=3)
        head = E.pack("<ii", 793712314, 12) + E.pack("<12id", 2, 5, 6, 7, 8, 1, 2, 2, 1, 3, 3, 100, 0.5)
        data = [head, E.pack("<iii", 1, 1, 0), E.pack("<qq", 12345, -1), word, b"\0", E.pack("<q", 7), b"\0", b"\0",
                E.pack("<qq", 2, 2), E.pack("<4f", 3.0, 4.0, 3.0, 4.0)]
    else:
        data = [b"1 2\n" if a == "textdims" else b"", word, b" 3.0 4.0\n"]
    E.write_bytes(p, *data)
    argv = [p, o, "-f", a]
    if case["lossy"]:
        argv.append("--lossy")
    r = E.script("finalfusion.scripts.convert", argv)
    if not case["lossy"]:
        E.note("strict")
        E.check(isinstance(r.exc, UnicodeDecodeError), "malformed UTF-8 is an error without --lossy")
        return
    E.note("lossy")
    E.check(r.exc is None and r.code == 0, "malformed UTF-8 is replaced with --lossy")
    got = E.mod("finalfusion").load_finalfusion(o)
    E.check([E.text(w) for w in got.vocab.words] == ["a\ufffdb"], "replacement character")


def raw(E, fmt):
    """a file of one or two words; "any" can be read as word2vec, text-dims and text, with different words"""
    if fmt == "any":
        return [b"1 1\nab 3.05\n"]
    if fmt == "word2vec":
        return [b"1 2\nab ", E.pack("<2f", 3.0, 4.0), b"\n"]
    if fmt == "fasttext":
        return [E.pack("<ii", 793712314, 12) + E.pack("<12id", 2, 5, 6, 7, 8, 1, 2, 2, 1, 3, 3, 100, 0.5), E.pack("<iii", 1, 1, 0),
                E.pack("<qq", 12345, -1), b"ab\0", E.pack("<q", 7), b"\0", b"\0", E.pack("<qq", 2, 2), E.pack("<4f", 3.0, 4.0, 3.0, 4.0)]
    if fmt == "finalfusion":
        return [b"FiFu", E.pack("<IIII", 0, 2, 1, 2), E.pack("<IQ", 1, 8 + 6), E.pack("<Q", 1), E.pack("<I", 2), b"ab",
                E.pack("<IQ", 2, 16 + 2 + 8), E.pack("<QII", 1, 2, 10), b"\0\0", E.pack("<2f", 0.6, 0.8)]
    return [(b"1 2\n" if fmt == "textdims" else b"") + b"ab 3.0 4.0\n"]


def run_named(E, case):
    """the format named decides, whatever the file looks like"""
    a = case["a"]
    p, o = E.path("in"), E.path("out")
    E.write_bytes(p, *raw(E, case["data"]))
    want = E.attempt(c21.load_as, E, a, p)
    E.check(want.exc is None or a != case["data"], "a file of the named format can be read")
    r = E.script("finalfusion.scripts.convert", [p, o, "-f", a])
    if want.exc is not None:
        E.note("named-refused")
        E.check(r.exc is not None or r.code != 0, "a file that is not in the named format is refused")
        return
    E.note("named-read")
    E.check(r.exc is None and r.code == 0, "ffp-convert succeeds")
    got = E.mod("finalfusion").load_finalfusion(o)
    E.check(list(got.vocab.words) == list(want.value.vocab.words), "the words the named format's reader finds")
    for i in range(len(got.vocab)):
        for x, y in zip(got.storage[i], want.value.storage[i]):
            E.check(E.tight(x, y, want.value.storage[i]), "the vectors the named format's reader finds")


def run_explicit(E, case):
    case = dict(case, vkind="fasttext")
    e = build(E, case, ["ab", "c"], 1)
    p, o = E.path("in"), E.path("out")
    write_as(E, case["a"], p, e.emb)
    r = E.script("finalfusion.scripts.bucket_to_explicit", [p, o] + (["-f", case["a"]] if case["a"] != "finalfusion" else []) +
                 (["--mmap"] if case["mmap"] else []))
    E.check(r.exc is None and r.code == 0, "ffp-bucket-to-explicit succeeds")
    E.note("explicit")
    want = c21.load_as(E, case["a"], p).bucket_to_explicit()
    got = E.mod("finalfusion").load_finalfusion(o)
    E.check(type(got.vocab).__name__ == "ExplicitVocab", "explicit vocabulary")
    E.check(got.vocab.words == want.vocab.words, "words")
    E.check(list(got.vocab.subword_indexer.ngrams) == list(want.vocab.subword_indexer.ngrams), "n-grams")
    for g in want.vocab.subword_indexer.ngrams:
        E.check(got.vocab.subword_indexer(g) == want.vocab.subword_indexer(g), "n-gram index")
    E.check(got.storage.shape == want.storage.shape, "shape")
    for i in range(want.storage.shape[0]):
        for j in range(want.storage.shape[1]):
            E.check(E.tight(got.storage[i][j], want.storage[i][j], want.storage[i], 1e-6), "rows")
    E.check((got.norms is None) == (want.norms is None), "norms")
    if got.norms is not None:
        for i in range(e.n):
            E.check(E.tight(got.norms[i], want.norms[i], ()), "norms")


def run_similar(E, case):
    tool(E, case, "similar", "ab\n", lambda x: x.word_similarity("ab", k=2))


def run_analogy(E, case):
    tool(E, case, "analogy", "ab cd e\n", lambda x: x.analogy("ab", "cd", "e", k=2, skip={"ab", "cd", "e"}))


def tool(E, case, name, query, want):
    case = dict(case, vkind="fasttext" if case["a"] == "fasttext" else "simple")
    e = build(E, case, ["ab", "cd", "e", "f"], 1)
    p, q = E.path("in"), E.path("q.txt")
    write_as(E, case["a"], p, e.emb)
    E.write_bytes(q, E.utf8(query))
    x = c21.load_as(E, case["a"], p)
    if name == "analogy":
        d = x["e"] + x["cd"] - x["ab"]
        E.assume(d[0] * d[0] > (0 if E.symbolic else 1e-2))
    ref = want(x)
    r = E.script("finalfusion.scripts." + name, [p, q, "-k", "2"] + (["-f", case["a"]] if case["a"] != "finalfusion" else []))
    E.check(r.exc is None and r.code == 0, "ffp-%s succeeds" % name)
    E.note(name)
    lines = E.lines(r.out)
    E.check(len(lines) == len(ref), "one line per result")
    for l, y in zip(lines, ref):
        parts = l.split(" ")
        E.check(len(parts) == 2 and E.text(parts[0]) == y.word, "word")
        E.check(E.tight(E.float(parts[1]), y.similarity, ()), "similarity")


def run_direct(E, case):
    """the library's dispatcher"""
    F = E.mod("finalfusion.scripts.util").Format
    a = case["a"]
    case = dict(case, vkind="fasttext" if a == "fasttext" else "simple")
    e = build(E, case)
    p, o = E.path("in"), E.path("out")
    write_as(E, a, p, e.emb)
    F(a).write(o, e.emb)
    E.check(E.eq(E.read_bytes(p), E.read_bytes(o)), "the format's writer is used")
    for mm in (False, True):
        for lossy in (False, True):
            got = F(a).load(p, lossy, mm)
            E.check(list(got.vocab.words) == list(e.words), "the format's reader is used")
            for i in range(e.n):
                nr = 1 if got.norms is None else got.norms[i]
                for j in range(e.cols):
                    E.check(E.tight(got.storage[i][j] * nr, e.plain[i][j], scale(e, i)), "un-normalised vector")
            if a == "finalfusion":
                E.check(E.mapped(got.storage) == mm, "mapped exactly if asked for")
    E.note("direct")
