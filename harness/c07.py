"""C07: n-gram extraction."""
WITNESSES = ("nonempty", "empty", "refused")


def spec(s, lo, hi):
    out = []
    for i in range(len(s)):
        for k in range(hi, lo - 1, -1):
            if i + k <= len(s):
                out.append(s[i:i + k])
    return out


def cases(tier):
    top = 6 if tier == "quick" else 10
    out = []
    for n in range(0, top + 1):
        for br in (True, False):
            out.append(dict(name="ngrams-len%d-%s" % (n, "br" if br else "raw"), n=n, bracket=br))
    # long words: n-grams about as long as the word, and short ones
    for n in (126, 255) if tier == "quick" else (126, 127, 254, 255, 300):
        for br in (True, False):
            out.append(dict(name="long%d-%s" % (n, "br" if br else "raw"), n=n, bracket=br, range=(n - 1, n + 3), weight=3))
        out.append(dict(name="long%d-short" % n, n=n, bracket=True, range=(1, 2), weight=3))
    for n in (0, 1, 3, 5):
        out.append(dict(name="vocab-len%d" % n, n=n, vocab=True))
    return out


def run(E, case):
    n = case["n"]
    w = E.word("w", n)
    a, b = case.get("range", (-2, n + 4))
    if n > 100 and b < n:
        # every combination of a small range
        lo, hi = (E.choice(x, list(range(a, b + 1))) for x in ("min_n", "max_n"))
    else:
        lo, hi = E.int("min_n", a, b), E.int("max_n", a, b)
    if case.get("vocab"):
        return vocab(E, w, lo, hi)
    ng = E.mod("finalfusion.subword").ngrams
    r = E.attempt(ng, w, lo, hi, case["bracket"])
    valid = E.truth(E.And(lo > 0, lo <= hi))
    if not valid:
        E.note("refused")
        E.check(r.exc is not None, "invalid bounds are refused")
        return
    E.check(r.exc is None, "valid bounds are accepted")
    lo, hi = int(lo), int(hi)
    s = "<" + w + ">" if case["bracket"] else w
    want = spec(s, lo, hi)
    E.note("nonempty" if want else "empty")
    E.check(len(r.value) == len(want), "number of n-grams")
    for i, (a, b) in enumerate(zip(r.value, want)):
        E.check(E.eq(a, b), "n-gram %d" % i)


def vocab(E, w, lo, hi):
    E.assume(E.And(lo > 0, lo <= hi))
    sw = E.mod("finalfusion.subword")
    v = E.mod("finalfusion.vocab.subword")
    ix = sw.FinalfusionHashIndexer(3, lo, hi)
    voc = v.FinalfusionBucketVocab(["x"], ix)
    lo, hi = int(lo), int(hi)
    E.check(E.eq((voc.min_n, voc.max_n), (lo, hi)), "n-gram settings")
    for br in (True, False):
        s = "<" + w + ">" if br else w
        want = spec(s, lo, hi)
        got = voc.subwords(w, br)
        E.note("nonempty" if want else "empty")
        E.check(len(got) == len(want), "number of subwords")
        for i, (a, b) in enumerate(zip(got, want)):
            E.check(E.eq(a, b), "subword %d" % i)
