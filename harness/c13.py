"""C13: bucket to explicit conversion."""
from . import common, emb

WITNESSES = ("converted", "shared", "apart", "no-ngrams", "refused")
SETS = [["abab", "ba", "", "ab"], ["a", "b"], [], ["\u4e2d\u6587\u4e2d", "x", "\u4e2d\u6587"], ["tree", "three", "t"]]


def cases(tier):
    out = []
    st = [("array", 2, True), ("array", 1, False), ("quant", 2, False), ("quant+norms", 2, True), ("quant+proj", 2, False)]
    rng = ((3, 4), (1, 2), (3, 6), (6, 7)) if tier == "quick" else ((3, 4), (1, 2), (3, 6), (1, 1), (2, 5), (6, 7))
    for kind in ("bucket", "fasttext"):
        for k, ws in enumerate(SETS):
            for lo, hi in rng:
                for s, (sk, cols, nm) in enumerate(st):
                    if tier == "quick" and sk != "array" and ((lo, hi) not in ((3, 4), (6, 7)) or k not in (0, 3)):
                        continue
                    for size in ((1, 3) if kind == "bucket" else (1, 2, 7)):
                        if tier == "quick" and sk != "array" and size == 1:
                            continue
                        out.append(dict(name="%s%d-set%d-%d-%d-%s%d%s" % (kind, size, k, lo, hi, sk, cols, "-n" if nm else ""),
                                        mode="concrete", kind=kind, words=ws, lo=lo, hi=hi, skind=sk, cols=cols, norms=nm,
                                        size=size))
        # any characters
        for lens in (((1, ), (2, ), (1, 1)) if tier == "quick" else ((1, ), (2, ), (1, 1), (3, ), (2, 1))):
            for lo, hi in ((3, 3), (3, 4), (2, 3)):
                if tier == "quick" and lo == 2 and lens != (1, ):
                    continue
                for size in ((1, 2) if kind == "bucket" else (2, 4)):
                    out.append(dict(name="any-%s%d-%s-%d-%d" % (kind, size, "".join(map(str, lens)), lo, hi), mode="any",
                                    kind=kind, lens=lens, lo=lo, hi=hi, size=size, weight=5))
    for kind, size in (("bucket", 4), ("fasttext", 23)):
        for k, ws in enumerate((["abcdefghijklmnopqrstuvwxyz\u00e9\u4e2d0123456789"], emb.many_words(36))):
            out.append(dict(name="large%d-%s" % (k, kind), mode="concrete", kind=kind, words=ws, lo=3, hi=6, skind="array", cols=1,
                            norms=True, size=size, weight=20))
    for kind in ("simple", "explicit"):
        out.append(dict(name="refused-" + kind, mode="refused", kind=kind))
    return out


def run(E, case):
    if case["mode"] == "refused":
        e = emb.build(E, case["kind"], ["ab"], grams=["<ab"])
        E.note("refused")
        E.check(isinstance(E.attempt(e.emb.bucket_to_explicit).exc, TypeError), "only bucket vocabularies are converted")
        return
    if case["mode"] == "any":
        words = [E.word("w%d" % i, k) for i, k in enumerate(case["lens"])]
        for i in range(len(words)):
            for j in range(i):
                if case["lens"][i] == case["lens"][j]:
                    E.assume(E.Not(E.eq(words[i], words[j])))
        e = emb.build(E, case["kind"], words, "array", 1, False, case["lo"], case["hi"], case["size"])
    else:
        words = case["words"]
        e = emb.build(E, case["kind"], words, case["skind"], case["cols"], case["norms"], case["lo"], case["hi"],
                      case["size"], codes=(0, 1, 1, 0, 0, 0, 1))
    before = E.np.array(e.matrix) if e.skind == "array" else None
    n = e.n
    x = e.emb.bucket_to_explicit()
    E.note("converted")
    v = x.vocab
    E.check(type(v).__name__ == "ExplicitVocab", "the result has an explicit vocabulary")
    E.check(len(v.words) == n and E.truth(E.eq(list(v.words), list(words))), "the words are kept")
    E.check(v.min_n == e.lo and v.max_n == e.hi, "the n-gram range is kept")
    # the distinct n-grams of the words and their buckets
    grams = []
    for w in words:
        for g in common.ngrams(common.bracket(w), e.lo, e.hi):
            if not any(len(g) == len(h) and E.truth(E.eq(g, h)) for h in grams):
                grams.append(g)
    if not grams:
        E.note("no-ngrams")
    ix = v.subword_indexer
    old = [e.vocab.subword_indexer(g) for g in grams]
    got = list(ix.ngrams)
    E.check(len(got) == len(grams), "as many explicit n-grams as distinct n-grams")
    for g in grams:
        E.check(E.Or(*[E.eq(g, h) for h in got if len(h) == len(g)]), "every n-gram is stored")
    new = []
    for g in grams:
        i = ix(g)
        E.check(i is not None, "every n-gram has an index")
        i = int(i)
        E.check(0 <= i < ix.upper_bound, "explicit index in range")
        new.append(i)
    E.check(sorted(set(new)) == list(range(ix.upper_bound)), "explicit indices are dense")
    for a in range(len(grams)):
        for b in range(a):
            same = E.eq(old[a], old[b])
            E.note("shared" if new[a] == new[b] else "apart")
            E.check(same if new[a] == new[b] else E.Not(same), "n-grams share a row exactly if they shared a bucket")
    E.check(E.eq((x.storage.shape[0], x.storage.shape[1]), (n + ix.upper_bound, e.cols)), "shape of the storage")
    ex = e.skind == "array"
    for i in range(n):
        emb.same(E, x.storage[i], e.rows[i], "row of a word", ex)
        emb.same(E, x.embedding(words[i]), e.rows[i], "embedding of a word", ex)
    for g, o, i in zip(grams, old, new):
        if isinstance(o, int):
            want = e.rows[n + o]
        else:
            want = [E.pick([e.rows[n + b][j] for b in range(len(e.rows) - n)], o) for j in range(e.cols)]
        emb.same(E, x.storage[n + i], want, "row of an n-gram", ex)
    E.check((x.norms is None) == (e.norms is None), "norms are kept")
    if e.norms is not None:
        E.check(E.eq(E.np.asarray(x.norms), e.norms), "norms are unchanged")
    if before is not None:
        E.check(E.eq(E.np.asarray(e.storage), before), "the original storage is not modified")
