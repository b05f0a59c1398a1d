"""C08: bulk subword indices agree with single lookups and stay in range."""
from . import common

WITNESSES = ("fifu", "ft", "none")


def cases(tier):
    out = []
    lens = (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5)
    rng = ((1, 1), (1, 3), (2, 3), (3, 6)) if tier == "quick" else ((1, 1), (1, 2), (1, 3), (2, 2), (2, 4), (3, 4), (3, 6), (5, 9))
    for k in ("fifu", "ft"):
        for n in lens:
            for lo, hi in rng:
                for br in (True, False):
                    out.append(dict(name="%s-len%d-%d-%d-%s" % (k, n, lo, hi, "br" if br else "raw"), kind=k, n=n, lo=lo,
                                    hi=hi, bracket=br, weight=n * (2 if k == "ft" else 1)))
    # long words that end in any characters
    for k in ("fifu", "ft"):
        for pre, lo, hi in LONG[:2] if tier == "quick" else LONG:
            out.append(dict(name="%s-long%d-%d-%d" % (k, pre, lo, hi), kind=k, n=1, lo=lo, hi=hi, bracket=False, prefix=pre, weight=9 if pre < 1000 else 99))
    return out


LONG = ((300, 3, 3), (300, 299, 300), (140, 3, 4), (600, 3, 3), (600, 598, 601))


def run(E, case):
    sw = E.mod("finalfusion.subword")
    n, lo, hi = case["n"], case["lo"], case["hi"]
    w = E.word("w", n)
    pre = case.get("prefix", 0)
    w = "".join(chr(0x61 + i % 7) for i in range(pre)) + w
    if case["kind"] == "fifu":
        exp = E.bv("exp", 1, 63) if not pre else 20
        ix = sw.FinalfusionHashIndexer(exp, lo, hi)
        ub = 1 << exp
    else:
        ub = E.bv("buckets", 1, 2**32 - 1) if not pre else 1000003
        ix = sw.FastTextIndexer(ub, lo, hi)
    off = E.bv("offset", 0, 2**63 - 1) if not pre else 7
    E.check(E.eq(ix.upper_bound, ub), "upper bound")
    E.check(E.eq((ix.min_n, ix.max_n), (lo, hi)), "n-gram range")
    s = common.bracket(w) if case["bracket"] else w
    grams = common.ngrams(s, lo, hi)
    E.note(case["kind"] if grams else "none")
    got = ix.subword_indices(w, off, case["bracket"])
    pairs = ix.subword_indices(w, offset=off, bracket=case["bracket"], with_ngrams=True)
    E.check(len(got) == len(grams), "one index per n-gram")
    E.check(len(pairs) == len(grams), "one pair per n-gram")
    at = range(len(grams))
    if pre:
        # the n-grams with the symbolic character, and some of the others
        at = [i for i in at if i > len(grams) - 8 or i % 8192 in (127, 128, 255, 256)]
    for i in at:
        g = grams[i]
        single = ix(g)
        E.check(E.eq(got[i], off + single), "index is offset plus single lookup")
        E.check(E.eq(pairs[i][1], off + single), "index in pair")
        E.check(E.eq(pairs[i][0], g), "n-gram in pair")
        # with got[i] == off + single (above) this is off <= got[i] < off + ub
        E.check(E.And(single >= 0, single < ub), "index in range")
