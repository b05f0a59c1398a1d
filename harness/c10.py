"""C10: explicit indexers return exactly the stored mapping."""
from . import common

WITNESSES = ("accepted", "refused", "stored", "unstored")


def cases(tier):
    out = []
    shapes = [(), (1, ), (2, 2), (1, 2), (2, 1, 1)]
    if tier != "quick":
        shapes += [(3, 2, 1), (2, 2, 2), (1, 1, 1, 1)]
    for sh in shapes:
        for mode in ("list", "dict", "extra", "missing"):
            if mode == "missing" and not sh:
                continue
            if tier == "quick" and len(sh) == 3 and mode in ("extra", "missing"):
                continue
            out.append(dict(name="new-%s-%s" % ("".join(map(str, sh)) or "0", mode), kind="new", shape=sh, mode=mode,
                            weight=len(sh)))
    out.append(dict(name="bounds", kind="bounds"))
    for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3)):
        for br in (True, False):
            for lo, hi in ((1, 2), (2, 3)):
                out.append(dict(name="sub-%d-%s-%d%d" % (n, "br" if br else "raw", lo, hi), kind="sub", n=n, bracket=br,
                                lo=lo, hi=hi, weight=n))
    return out


def run(E, case):
    Ix = E.mod("finalfusion.subword").ExplicitIndexer
    if case["kind"] == "bounds":
        lo, hi = E.int("lo", -1, 4), E.int("hi", -1, 4)
        r = E.attempt(Ix, ["ab"], lo, hi)
        ok = E.truth(E.And(lo > 0, hi >= lo))
        E.note("bounds-%s" % ok)
        E.check((r.exc is None) == ok, "n-gram bounds are validated")
        if ok:
            E.check(E.eq((r.value.min_n, r.value.max_n), (lo, hi)), "n-gram bounds are kept")
        return
    if case["kind"] == "sub":
        return sub(E, Ix, case)
    shape, mode = case["shape"], case["mode"]
    grams = [E.word("g%d" % i, k) for i, k in enumerate(shape)]
    k = len(grams)
    keys = list(grams)
    if mode == "extra":
        keys = keys + [E.word("x", 2)]
    elif mode == "missing":
        keys = keys[:-1]
    d = None
    if mode != "list":
        pairs = [(g, E.int("i%d" % i, -2, k + 1)) for i, g in enumerate(keys)]
        d = E.dict(pairs)
    r = E.attempt(Ix, list(grams), 1, 3, d)
    uniq = all(not E.truth(E.eq(grams[i], grams[j])) for i in range(k) for j in range(i))
    valid = uniq
    index = None
    if mode == "list":
        index = list(range(k))
    else:
        # the dictionary keeps one entry per distinct key (last value wins)
        ded = []
        for g, v in pairs:
            for t in ded:
                if E.truth(E.eq(t[0], g)):
                    t[1] = v
                    break
            else:
                ded.append([g, v])
        if valid:
            valid = len(ded) == k and all(any(E.truth(E.eq(g, t[0])) for t in ded) for g in grams)
        if valid:
            vals = [t[1] for t in ded]
            top = 0
            for v in vals:
                if E.truth(v + 1 > top):
                    top = v + 1
            top = int(top)
            valid = all(E.truth(v >= 0) for v in vals) and all(
                any(E.truth(v == t) for v in vals) for t in range(top))
            index = [next(t[1] for t in ded if E.truth(E.eq(g, t[0]))) for g in grams]
    E.note("accepted" if valid else "refused")
    E.check((r.exc is None) == bool(valid), "exactly the valid mappings are accepted")
    if not valid:
        return
    ix = r.value
    ub = k if mode == "list" else top
    E.check(E.eq(ix.upper_bound, ub), "upper bound")
    E.check(E.eq(list(ix.ngrams), list(grams)), "n-gram list")
    E.check(len(ix) == k, "length")
    for g, v in zip(grams, index):
        E.check(E.eq(ix(g), v), "stored index by call")
        E.check(E.eq(ix[g], v), "stored index by item")
        E.check(g in ix if not E.symbolic else ix.__contains__(g), "stored n-gram is contained")
    q = E.word("q", shape[-1] if shape else 1)
    hits = [i for i, g in enumerate(grams) if E.truth(E.eq(q, g))]
    got = ix(q)
    E.note("stored" if hits else "unstored")
    if hits:
        E.check(E.eq(got, index[hits[0]]), "lookup of a stored n-gram")
    else:
        E.check(got is None, "lookup of another string gives None")
        E.check(E.Not(ix.__contains__(q)), "other strings are not contained")
        E.check(isinstance(E.attempt(lambda: ix[q]).exc, KeyError), "item access of another string")


def sub(E, Ix, case):
    """word and stored n-grams share arbitrary characters"""
    n, lo, hi = case["n"], case["lo"], case["hi"]
    w = E.word("w", n)
    g0, g1 = E.word("g0", lo), E.word("g1", hi)
    d = E.dict([(g0, 0), (g1, 0)]) if E.truth(E.bool("shared")) else E.dict([(g1, 0), (g0, 1)])
    shared = len(d) == 2 and E.truth(E.eq(d[g0], d[g1]))
    ix = Ix([g0, g1], lo, hi, d)
    off = E.bv("off", 0, 2**62)
    got = ix.subword_indices(w, off, case["bracket"])
    pairs = ix.subword_indices(w, off, case["bracket"], with_ngrams=True)
    s = common.bracket(w) if case["bracket"] else w
    want = []
    for g in common.ngrams(s, lo, hi):
        if len(g) == lo and E.truth(E.eq(g, g0)):
            want.append((g, 0 if shared else 1))
        elif len(g) == hi and E.truth(E.eq(g, g1)):
            want.append((g, 0))
    E.note("sub-%d" % len(want))
    E.check(len(got) == len(want), "one index per stored n-gram")
    E.check(len(pairs) == len(want), "one pair per stored n-gram")
    for i, (g, v) in enumerate(want):
        E.check(E.eq(got[i], off + v), "subword index")
        E.check(E.eq(pairs[i][1], off + v), "subword index in pair")
        E.check(E.eq(pairs[i][0], g), "n-gram in pair")
