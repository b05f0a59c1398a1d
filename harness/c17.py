"""C17: word2vec binary round trip."""
from . import emb

WITNESSES = ("norms", "no-norms", "subwords", "quantized", "nonascii")
ASCII_WS = (0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x20)


def specs(tier):
    """words: lengths; what the compat round trips are tried on"""
    out = []
    for lens in ((1, ), (2, ), (3, ), (0, 1), (1, 1), (2, 1), (1, 1, 1)):
        for norms in (False, True):
            out.append(dict(name="%s%s" % ("".join(map(str, lens)), "-norms" * norms), lens=lens, norms=norms, vkind="simple",
                            skind="array", cols=2, weight=sum(lens) + 1))
    for cols in (1, 3) if tier == "quick" else (1, 3, 4, 5):
        out.append(dict(name="cols%d" % cols, lens=(1, 2), norms=True, vkind="simple", skind="array", cols=cols))
    for vk in ("bucket", "fasttext", "explicit"):
        for norms in (False, True):
            out.append(dict(name="%s%s" % (vk, "-norms" * norms), lens=(1, 1), norms=norms, vkind=vk, skind="array", cols=2))
    for sk in ("quant", "quant+norms", "quant+proj", "quant+proj+norms"):
        for vk, norms in (("simple", True), ("bucket", False)):
            out.append(dict(name="%s-%s" % (sk, vk), lens=(1, 1), norms=norms, vkind=vk, skind=sk, cols=2))
    for lay in ("F", "cols"):
        out.append(dict(name=lay, lens=(1, 1), norms=True, vkind="simple", skind="array", cols=2, layout=lay))
    for norms in (False, True):
        out.append(dict(name="big-endian%s" % ("-norms" * norms), lens=(1, 1), norms=norms, vkind="simple", skind="array",
                        cols=2, dtype=">f4"))
    for vk in ("simple", "fasttext"):
        out.append(dict(name="many-" + vk, lens=(), many=130, norms=True, vkind=vk, skind="array", cols=2, layout="few", weight=9))
    if tier != "quick":
        for lens in ((4, ), (3, 2), (2, 2, 1), (0, 2, 1)):
            for norms in (False, True):
                out.append(dict(name="%s%s" % ("".join(map(str, lens)), "-norms" * norms), lens=lens, norms=norms,
                                vkind="simple", skind="array", cols=2, weight=sum(lens) * 3))
    return out


def cases(tier):
    return specs(tier)


def build(E, case, exclude=ASCII_WS, words=None):
    """arbitrary distinct words, arbitrary matrix with non-zero vectors"""
    words = words or [E.word("w%d" % i, n, exclude, case.get("maxcp", 0x10ffff)) for i, n in enumerate(case["lens"])]
    if case.get("many"):
        words = emb.many_words(case["many"])
    for i in range(len(words)):
        for j in range(i):
            if case["lens"] and case["lens"][i] == case["lens"][j]:
                E.assume(E.Not(E.eq(words[i], words[j])))
    e = emb.build(E, case["vkind"], words, case["skind"], case["cols"], case["norms"], size=1, grams=["ab"],
                  codes=(0, 1, 1, 0, 1), dtype=case.get("dtype", "float32"), layout=case.get("layout"))
    e.plain = []
    for i in range(e.n):
        r = e.rows[i]
        if case["norms"]:
            r = [x * e.norms[i] for x in r]
        E.assume(emb.total([x * x for x in r]) > (0 if E.symbolic or case["skind"] == "array" else 1e-3))
        e.plain.append(r)
    E.note("norms" if case["norms"] else "no-norms")
    if case["vkind"] != "simple":
        E.note("subwords")
    if case["skind"] != "array":
        E.note("quantized")
    return e


def verify(E, e, got, what, rows=None):
    """got: loaded embeddings; the un-normalised vectors are e.plain"""
    E.check(type(got.vocab).__name__ == "SimpleVocab", what + ": plain vocabulary")
    compare(E, e.words, e.plain, got, what, e.skind == "array")
    E.check(got.storage.shape[0] == e.n, what + ": one row per word")


def compare(E, words, plain, got, what, sharp=False, parts=()):
    """sharp: exact up to the last digits, parts: the numbers whose rounding matters otherwise"""
    n, cols = len(words), len(plain[0])
    E.check(len(got.vocab.words) == n and len(got.vocab) == n, what + ": number of words")
    for i in range(n):
        E.check(E.eq(got.vocab.words[i], words[i]), what + ": words in order")
        E.check(E.eq(got.vocab.word_index[words[i]], i), what + ": word index")
    E.check(got.storage.shape[1] == cols, what + ": dimensionality")
    E.check(got.norms is not None, what + ": norms present")
    nr = E.np.asarray(got.norms)
    E.check(nr.ndim == 1 and nr.shape[0] == n, what + ": one norm per word")
    for i in range(n):
        row = got.storage[i]
        # together with the last check: the row has unit length
        sq = emb.total([x * x for x in plain[i]])
        E.check(E.tight(nr[i] * nr[i], sq, (), 4e-6) if sharp else E.close(nr[i] * nr[i], sq), what + ": norms are lengths")
        E.check(E.lt(0, nr[i]), what + ": norms are not negative")
        for j in range(cols):
            got_j = row[j] * nr[i]
            E.check(E.near(got_j, plain[i][j]) if sharp else E.tight(got_j, plain[i][j], parts, 4e-6) if parts else
                    E.close(got_j, plain[i][j]),
                    what + ": un-normalised vector")


def run(E, case):
    e = build(E, case)
    W = E.mod("finalfusion.compat")
    p = E.path("e.w2v")
    before = E.np.array(e.matrix) if e.skind == "array" else None
    W.write_word2vec(p, e.emb)
    if before is not None:
        E.check(E.eq(E.np.asarray(e.storage), before), "the storage is not modified by writing")
    for lossy in (False, True):
        verify(E, e, W.load_word2vec(p, lossy), "lossy" if lossy else "strict")
    for w in e.words:
        if len(w) and E.truth(E.Or(*[c > 127 for c in E.cps(w)])):
            E.note("nonascii")
