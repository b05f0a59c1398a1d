"""C09: hash indexers compute the buckets other implementations compute."""
from . import common

WITNESSES = ("fifu", "ft")


def cases(tier):
    top = 4 if tier == "quick" else 6
    out = []
    for n in range(0, top + 1):
        for k in ("fifu", "ft"):
            out.append(dict(name="%s-call-%d" % (k, n), kind=k, n=n, mode="call", weight=n))
    for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
        for k in ("fifu", "ft"):
            out.append(dict(name="%s-bulk-%d" % (k, n), kind=k, n=n, mode="bulk", weight=n))
    return out


def run(E, case):
    n = case["n"]
    kind = case["kind"]
    sw = E.mod("finalfusion.subword")
    w = E.word("w", n)
    if kind == "fifu":
        exp = E.bv("exp", 1, 63)
        ix = sw.FinalfusionHashIndexer(exp, 1, 3)
        want = lambda g: common.fifu_hash(E, g) & ((1 << exp) - 1)
    else:
        nb = E.bv("buckets", 1, 2**32 - 1)
        ix = sw.FastTextIndexer(nb, 1, 3)
        want = lambda g: common.ft_hash(E, g) % nb
    E.note(kind)
    if case["mode"] == "call":
        E.check(E.eq(ix(w), want(w)), "bucket of an n-gram")
        return
    got = ix.subword_indices(w)
    grams = common.ngrams(common.bracket(w), 1, 3)
    E.check(len(got) == len(grams), "number of indices")
    for i, (a, g) in enumerate(zip(got, grams)):
        E.check(E.eq(a, want(g)), "bulk bucket %d" % i)
