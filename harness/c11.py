"""C11: vocabulary lookup."""
from . import common, emb

WITNESSES = ("known", "unknown", "subwords", "no-subwords", "duplicate")


def cases(tier):
    out = []
    shapes = [(), (1, ), (0, 1), (1, 1), (2, 1, 2)]
    lens = (0, 1, 2)
    ranges = ((1, 2), (3, 4), (4, 6))
    if tier != "quick":
        shapes += [(2, 2, 2), (3, 1), (1, 1, 1, 1)]
        lens = (0, 1, 2, 3, 4)
        ranges += ((1, 1), (2, 5), (3, 6), (7, 9))
    for kind in ("simple", "bucket", "fasttext", "explicit"):
        for sh in shapes:
            for m in lens:
                for lo, hi in (ranges if kind != "simple" else ((0, 0), )):
                    if tier == "quick" and kind != "simple" and (len(sh) == 3 and lo != 3):
                        continue
                    out.append(dict(name="%s-%s-q%d-%d-%d" % (kind, "".join(map(str, sh)) or "none", m, lo, hi), kind=kind,
                                    shape=sh, m=m, lo=lo, hi=hi, weight=len(sh) + m))
    for kind in ("simple", "bucket", "fasttext", "explicit"):
        out.append(dict(name=kind + "-many", kind=kind, many=260, m=1, lo=3, hi=4, shape=(2, ) * 260, weight=30))
    return out


def run(E, case):
    V = E.mod("finalfusion.vocab")
    S = E.mod("finalfusion.subword")
    kind, lo, hi = case["kind"], case["lo"], case["hi"]
    if case.get("many"):
        words = emb.many_words(case["many"])
    else:
        words = [E.word("w%d" % i, k) for i, k in enumerate(case["shape"])]
    n = len(words)
    if kind == "simple":
        ix, top, r = None, 0, E.attempt(V.SimpleVocab, list(words))
    elif kind == "bucket":
        b = E.bv("exp", 1, 63, soft=3)
        ix, top = S.FinalfusionHashIndexer(b, lo, hi), 1 << b
        r = E.attempt(V.FinalfusionBucketVocab, list(words), ix)
    elif kind == "fasttext":
        b = E.bv("buckets", 1, 2**32 - 1, soft=6)
        ix, top = S.FastTextIndexer(b, lo, hi), b
        r = E.attempt(V.FastTextVocab, list(words), ix)
    else:
        g = [E.word("g0", lo), E.word("g1", hi)]
        if lo == hi:
            E.assume(E.Not(E.eq(g[0], g[1])))
        ix, top = S.ExplicitIndexer(g, lo, hi), 2
        r = E.attempt(V.ExplicitVocab, list(words), ix)
    dup = any(E.truth(E.eq(words[i], words[j])) for i in range(n) for j in range(i)
              if not case.get("many") and case["shape"][i] == case["shape"][j])
    E.check((r.exc is not None) == dup, "exactly vocabularies with duplicate words are refused")
    if dup:
        E.note("duplicate")
        return
    v = r.value
    q = E.word("q", case["m"])
    hits = [i for i, w in enumerate(words) if len(w) == case["m"] and E.truth(E.eq(w, q))]
    dflt = E.int("default", -3, 3)
    facts(E, v, words, n, top)
    lookup(E, case, v, words, q, hits, ix, top, g if kind == "explicit" else None, dflt)
    if kind != "simple":
        subwords(E, case, v, n, q, ix, g if kind == "explicit" else None)
    # nothing of that changes because of the lookups
    facts(E, v, words, n, top)
    if not hits:
        lookup(E, case, v, words, q, hits, ix, top, g if kind == "explicit" else None, dflt)


def facts(E, v, words, n, top):
    E.check(len(v) == n, "length")
    E.check(len(v.words) == n and E.truth(E.eq(list(v.words), words)), "words in order")
    E.check(E.eq(list(v), words), "iteration gives the words in order")
    E.check(E.eq(v.upper_bound, n + top), "upper bound")
    for i, w in enumerate(words):
        E.check(E.eq(v.word_index[w], i), "index of a word in word_index")
        E.check(E.eq(v.idx(w), i), "index of a word")
        E.check(E.eq(v.idx(w, default=n + 5), i), "index of a word with a default")
        E.check(E.eq(v[w], i), "item access of a word")
        E.check(E.truth(v.__contains__(w)), "words are contained")
    E.check(E.truth(v.__contains__(list(words))), "the list of all words is contained")


def subwords(E, case, v, n, q, ix, g):
    """the vocabulary's n-grams and their indices, of known and unknown strings alike"""
    lo, hi = case["lo"], case["hi"]
    E.check(E.And(E.eq(v.min_n, lo), E.eq(v.max_n, hi)), "n-gram range")
    for br in (True, False):
        grams = common.ngrams(common.bracket(q) if br else q, lo, hi)
        got = v.subwords(q, bracket=br)
        E.check(len(got) == len(grams) and E.truth(E.eq(list(got), grams)), "n-grams of a string")
        if g is None:
            want = [(s, ix(s)) for s in grams]
        else:
            want = [(s, k) for s in grams for k in (0, 1) if len(s) == (lo, hi)[k] and E.truth(E.eq(s, g[k]))]
        got, pairs = v.subword_indices(q, bracket=br), v.subword_indices(q, bracket=br, with_ngrams=True)
        E.check(len(got) == len(want) and len(pairs) == len(want), "one index per known n-gram")
        for a, (s, b), (t, k) in zip(got, pairs, want):
            E.check(E.And(E.eq(a, n + k), E.eq(b, n + k)), "the index of the n-gram behind the words")
            E.check(E.eq(s, t), "the n-gram of the index")


def lookup(E, case, v, words, q, hits, ix, top, g, dflt):
    kind, lo, hi, n = case["kind"], case["lo"], case["hi"], len(words)
    if hits:
        E.note("known")
        E.check(E.eq(v.idx(q), hits[0]), "an equal string has the index of the word")
        return
    E.note("unknown")
    E.check(E.Not(v.__contains__(q)), "other strings are not contained")
    E.check(E.Not(v.__contains__(list(words) + [q])), "a list with another string is not contained")
    E.check(v.word_index.get(q) is None, "other strings are not in word_index")
    want = []
    if kind in ("bucket", "fasttext"):
        want = [ix(g) for g in common.ngrams(common.bracket(q), lo, hi)]
    elif kind == "explicit":
        for s in common.ngrams(common.bracket(q), lo, hi):
            if len(s) == lo and E.truth(E.eq(s, g[0])):
                want.append(0)
            elif len(s) == hi and E.truth(E.eq(s, g[1])):
                want.append(1)
    if not want:
        E.note("no-subwords")
        E.check(v.idx(q) is None, "no index without subwords")
        E.check(E.eq(v.idx(q, default=dflt), dflt), "default without subwords")
        E.check(isinstance(E.attempt(lambda: v[q]).exc, KeyError), "item access without subwords")
        return
    E.note("subwords")
    for got in (v.idx(q), v.idx(q, default=dflt), v[q]):
        E.check(isinstance(got, list) and len(got) == len(want), "one index per subword")
        for a, b in zip(got, want):
            E.check(E.eq(a, n + b), "subword index")
            # with the equality above: n <= index < upper bound
            E.check(E.And(b >= 0, b < top), "subword index in range")
        got.append(0)  # the list belongs to the caller
