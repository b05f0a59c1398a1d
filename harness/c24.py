"""C24: equality of indexers and vocabularies."""

WITNESSES = ("equal", "different", "other-kind")
KINDS = ("simple", "bucket", "fasttext", "explicit")


def cases(tier):
    out = []
    for k in ("bucket", "fasttext"):
        out.append(dict(name="indexer-" + k, mode="indexer", kind=k))
    shapes = [((1, ), (1, )), ((), ()), ((1, ), ()), ((1, 2), (1, 2)), ((1, 1), (1, 1)), ((2, 1), (1, 2))]
    if tier != "quick":
        shapes += [((1, 1, 1), (1, 1, 1)), ((2, 1, 2), (2, 1, 2)), ((1, 1), (1, )), ((0, 2), (0, 2)), ((3, 3), (3, 3))]
    for a, b in shapes:
        nm = "%s:%s" % ("".join(map(str, a)) or "-", "".join(map(str, b)) or "-")
        for index in (False, True):
            out.append(dict(name="indexer-explicit-%s%s" % (nm, "-dict" * index), mode="indexer", kind="explicit", a=a, b=b,
                            index=index, weight=len(a)))
        for k in KINDS:
            out.append(dict(name="vocab-%s-%s" % (k, nm), mode="vocab", kind=k, a=a, b=b, weight=len(a)))
    out.append(dict(name="kinds", mode="kinds"))
    return out


def same(E, x, y, want, what):
    for a, b in ((x, y), (y, x)):
        E.check(bool(a == b) == want, what + ": equality")
        E.check(bool(a != b) == (not want), what + ": inequality")
    E.check(x == x and not x != x, what + ": equal to itself")
    E.note("equal" if want else "different")


def hashed(E, kind, pre):
    """an indexer and the values that determine it"""
    S = E.mod("finalfusion.subword")
    lo = E.int(pre + "lo", 1, 2**31 - 1)
    hi = E.int(pre + "hi", 1, 2**31 - 1)
    E.assume(lo <= hi)
    n = E.int(pre + "n", 1, 63 if kind == "bucket" else 2**32 - 1)
    return (S.FinalfusionHashIndexer if kind == "bucket" else S.FastTextIndexer)(n, lo, hi), (n, lo, hi)


def words(E, pre, lens):
    ws = [E.word(pre + str(i), n) for i, n in enumerate(lens)]
    for i in range(len(ws)):
        for j in range(i):
            if lens[i] == lens[j]:
                E.assume(E.Not(E.eq(ws[i], ws[j])))
    return ws


def explicit(E, pre, lens, index):
    S = E.mod("finalfusion.subword")
    gs = words(E, pre + "g", lens)
    lo, hi = E.int(pre + "lo", 1, 9), E.int(pre + "hi", 1, 9)
    E.assume(lo <= hi)
    ix = list(range(len(gs)))
    d = None
    if index:
        ix = [E.int("%si%d" % (pre, i), 0, len(gs) - 1) for i in range(len(gs))]
        # a dense range
        ix = [E.pick(list(range(len(gs))), i) for i in ix]
        d = E.dict(list(zip(gs, ix)))
    r = E.attempt(S.ExplicitIndexer, list(gs), lo, hi, d)
    E.assume(r.exc is None)
    return r.value, (lo, hi), gs, ix


def agree(E, a, b):
    if len(a) != len(b):
        return False
    return E.truth(E.And(*[E.eq(x, y) for x, y in zip(a, b)]))


def run(E, case):
    mode, kind = case["mode"], case.get("kind")
    V, S = E.mod("finalfusion.vocab"), E.mod("finalfusion.subword")
    if mode == "kinds":
        # nothing equals an object of another kind
        ix = [S.FinalfusionHashIndexer(1, 3, 6), S.FastTextIndexer(2, 3, 6), S.ExplicitIndexer(["ab", "bc"], 3, 6)]
        vs = [V.SimpleVocab(["a"]), V.FinalfusionBucketVocab(["a"], ix[0]), V.FastTextVocab(["a"], ix[1]),
              V.ExplicitVocab(["a"], ix[2])]
        E.note("other-kind")
        for group in (ix, vs):
            for i, x in enumerate(group):
                for j, y in enumerate(group):
                    E.check(bool(x == y) == (i == j), "objects of different kinds are different")
                for y in (None, 1, "a", ["a"], {"a": 0}):
                    E.check(not x == y and x != y, "different from anything else")
        return
    if mode == "indexer":
        if kind == "explicit":
            x, (a, b), gx, ax = explicit(E, "x", case["a"], case["index"])
            y, (c, d), gy, ay = explicit(E, "y", case["b"], case["index"])
            want = E.truth(E.And(E.eq(a, c), E.eq(b, d))) and agree(E, gx, gy) and agree(E, ax, ay)
        else:
            x, a = hashed(E, kind, "x")
            y, b = hashed(E, kind, "y")
            want = agree(E, a, b)
        same(E, x, y, want, "indexers")
        return
    wx, wy = words(E, "x", case["a"]), words(E, "y", case["b"])
    want = agree(E, wx, wy)
    if kind == "simple":
        x, y = V.SimpleVocab(list(wx)), V.SimpleVocab(list(wy))
    elif kind == "explicit":
        ix, iy = [S.ExplicitIndexer(["ab", "bc"], 2, E.choice(p, [3, 4])) for p in ("ex", "ey")]
        want = want and ix.max_n == iy.max_n
        x, y = V.ExplicitVocab(list(wx), ix), V.ExplicitVocab(list(wy), iy)
    else:
        ix, a = hashed(E, kind, "a")
        iy, b = hashed(E, kind, "b")
        want = want and agree(E, a, b)
        cls = V.FinalfusionBucketVocab if kind == "bucket" else V.FastTextVocab
        x, y = cls(list(wx), ix), cls(list(wy), iy)
    same(E, x, y, want, "vocabularies")
