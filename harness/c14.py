"""C14: similarity queries."""
from . import emb

WITNESSES = ("top", "short", "empty", "skip", "word", "oov", "none", "cli", "cli-none", "history")
WORDS = ["ab", "cde", "f", "gh", "ij"]
UNKNOWN = "zzz"


def cases(tier):
    out = []
    nmax = 4 if tier == "quick" else 5
    for n in range(0, nmax + 1):
        for k in range(0, n + 3):
            for cols in ((1, 2) if n <= 3 else (1, )):
                for vk in ("simple", "bucket"):
                    if tier == "quick" and n == nmax and vk == "bucket" and k > 2:
                        continue
                    out.append(dict(name="vec-%s%d-k%d-c%d" % (vk, n, k, cols), mode="vec", kind=vk, n=n, k=k, cols=cols,
                                    skind="array", weight=n + 3 * (n > 3)))
    for sk in ("quant", "quant+norms", "quant+proj"):
        for k in (1, 2, 5):
            out.append(dict(name="vec-%s-k%d" % (sk, k), mode="vec", kind="bucket", n=3, k=k, cols=2, skind=sk))
    for vk in ("simple", "bucket", "fasttext", "explicit"):
        for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
            for k in sorted({0, 1, 2, n + 1}):
                for q in (WORDS[0], WORDS[n - 1], UNKNOWN):
                    if q == WORDS[0] and n == 1:
                        continue
                    out.append(dict(name="word-%s%d-k%d-%s" % (vk, n, k, q), mode="word", kind=vk, n=n, k=k, cols=1, q=q,
                                    skind="array", weight=n))
    out.append(dict(name="word-cols2", mode="word", kind="simple", n=2, k=2, cols=2, q="ab", skind="array"))
    for q in ((0, ), (1, 2), (2, -1, 0), (-1, ), ()):
        for k in (0, 1, 2, None):
            out.append(dict(name="cli-%s-k%s" % ("".join(map(str, q)), k), mode="cli", kind="simple", n=3, k=k, cols=1, qs=q,
                            skind="array"))
    for vk in ("bucket", "explicit"):
        out.append(dict(name="cli-" + vk, mode="cli", kind=vk, n=2, k=1, cols=1, qs=(-1, 1), skind="array"))
    for n in (2, 3):
        for vk in ("simple", "bucket"):
            for k in (1, 2, 4):
                out.append(dict(name="history-%s%d-k%d" % (vk, n, k), mode="history", kind=vk, n=n, k=k, cols=1, skind="array"))
    out.append(dict(name="cli-stdin", mode="cli", kind="bucket", n=3, k=2, cols=1, qs=(-1, 2, 0), skind="array", stdin=True))
    for k in (1, 99, 100, 128, 149, 150, 500):
        for skip in (0, 5):
            out.append(dict(name="many-k%d-s%d" % (k, skip), mode="many", kind="simple", n=150, k=k, cols=1, skind="array", skip=skip))
    out.append(dict(name="default-k", mode="defaults", kind="simple", n=1, cols=1, skind="array"))
    return out


def run(E, case):
    n = case.get("n", 3)
    words = WORDS[:n]
    kind = case["kind"]
    if case["mode"] == "defaults":
        return defaults(E)
    if case["mode"] == "many":
        return many(E, case)
    e = emb.build(E, kind, words, case["skind"], case["cols"], False, 3, 4, 3 if kind == "fasttext" else 1,
                  grams=["<zz", "zzz", "<q"], codes=(0, 1, 1, 1, 0, 0, 1), cent=2)
    k = case["k"]
    if case["mode"] == "cli":
        return cli(E, e, case)
    if case["mode"] == "vec":
        # any direction up to scale in one dimension, fixed mixture in two
        query = E.np.array([1.0] if case["cols"] == 1 else [2.0, -1.0], dtype=E.np.float32)
        qv = [1.0] if case["cols"] == 1 else [2.0, -1.0]
        if case["cols"] == 1 and n <= 3:
            query = E.array("q", (1, ))
            qv = [query[0]]
        skip = None
        choice = E.choice("skip", [0, 1, 2, 3]) if n >= 2 else E.choice("skip", [0, 3])
        if choice:
            skip = {1: {words[0]} if n else set(), 2: set(words[:2]) | {UNKNOWN}, 3: {UNKNOWN, ""}}[choice]
            E.note("skip")
        before = [query[j] for j in range(len(qv))]
        res = e.emb.embedding_similarity(query, k) if skip is None else e.emb.embedding_similarity(query, k=k, skip=set(skip))
        for j in range(len(qv)):
            E.check(E.eq(query[j], before[j]), "the query is not modified")
        return verify(E, e, res, qv, k, set() if skip is None else skip)
    if case["mode"] == "history":
        return history(E, e, k)
    q = case["q"]
    qv = vector(E, e, q)
    if qv is None:
        E.note("none")
        E.check(e.emb.word_similarity(q, k) is None, "no embedding, no similarities")
        return
    res = e.emb.word_similarity(q, k)
    verify(E, e, res, qv, k, {q})


def history(E, e, k):
    """queries do not influence each other"""
    E.note("history")
    before = E.np.array(e.matrix)
    one = E.np.array([1.0], dtype=E.np.float32)
    skip = {e.words[1], UNKNOWN}
    verify(E, e, e.emb.embedding_similarity(one, k=k, skip=skip), [1.0], k, {e.words[1]})
    E.check(skip == {e.words[1], UNKNOWN}, "the skip set is not modified")
    verify(E, e, e.emb.embedding_similarity(one, k=k + 1), [1.0], k + 1, set())
    verify(E, e, e.emb.word_similarity(e.words[0], k=k), e.rows[0], k, {e.words[0]})
    verify(E, e, e.emb.embedding_similarity(one, k=k, skip={e.words[0]}), [1.0], k, {e.words[0]})
    verify(E, e, e.emb.word_similarity(e.words[1], k=k), e.rows[1], k, {e.words[1]})
    verify(E, e, e.emb.embedding_similarity(one, k=k), [1.0], k, set())
    E.check(E.eq(E.np.asarray(e.storage), before), "the storage is not modified")


def vector(E, e, q):
    if q in e.words:
        E.note("word")
        return e.rows[e.words.index(q)]
    idx = emb.subword_rows(E, e, q) if e.kind != "simple" else []
    if not idx:
        return None
    E.note("oov")
    s = [emb.total([e.rows[i][j] for i in idx]) for j in range(e.cols)]
    sq = emb.total([x * x for x in s])
    E.assume(sq > (0 if E.symbolic else 1e-4))
    return [x / E.sqrt(sq) for x in s]


class Row:
    def __init__(self, word, similarity):
        self.word, self.similarity = word, similarity


def cli(E, e, case):
    """ffp-similar: one query per line, blank lines are skipped"""
    k = case["k"]
    qs = [UNKNOWN if i < 0 else e.words[i] for i in case["qs"]]
    p, i = E.path("e.fifu"), E.path("queries.txt")
    e.emb.write(p)
    E.write_bytes(i, E.utf8("".join("%s\n\n" % q for q in qs)))
    argv = ([] if k is None else ["-k", str(k)])
    if case.get("stdin"):
        r = E.script("finalfusion.scripts.similar", [p] + argv, stdin="".join("%s\n\n" % q for q in qs))
    else:
        r = E.script("finalfusion.scripts.similar", [p, i] + argv)
    E.check(r.exc is None and r.code == 0, "ffp-similar succeeds")
    lines = [l for l in E.lines(r.out) if not is_blank(E.text(l))]
    k = 10 if k is None else k
    at = 0
    for q in qs:
        qv = vector(E, e, q)
        if qv is None:
            E.note("cli-none")
            continue
        E.note("cli")
        m = min(k, len([w for w in e.words if w != q]))
        E.check(at + m <= len(lines), "an answer for every query")
        res = []
        for l in lines[at:at + m]:
            parts = l.split(" ")
            E.check(len(parts) == 2, "one word and similarity per line")
            res.append(Row(E.text(parts[0]), E.float(parts[1])))
        at += m
        verify(E, e, res, qv, k, {q})
    E.check(at == len(lines), "no other output")


def verify(E, e, res, qv, k, skip, rel=2e-6):
    """rel: relative rounding error of a similarity"""
    allowed = [i for i, w in enumerate(e.words) if w not in skip]
    E.check(res is not None, "there is a result")
    res = list(res)
    E.check(len(res) == min(k, len(allowed)), "number of results")
    E.note("empty" if not res else ("short" if len(res) < k else "top"))
    sims = [emb.total([a * b for a, b in zip(e.rows[i], qv)]) for i in range(e.n)]
    terms = [x for row in e.rows[:e.n] for x in ([a * b for a, b in zip(row, qv)] if e.skind == "array" else [1.0] + row)]
    rel = rel if e.skind == "array" else max(rel, 2e-5)
    seen = []
    for r in res:
        E.check(r.word in e.words and r.word not in skip and r.word not in seen, "results are distinct allowed words")
        seen.append(r.word)
        i = e.words.index(r.word)
        E.check(E.tight(r.similarity, sims[i], [a * b for a, b in zip(e.rows[i], qv)] if e.skind == "array" else [1.0] + e.rows[i]), "the similarity is that of the word")
    for a, b in zip(seen, seen[1:]):
        E.check(E.lt(sims[e.words.index(b)], sims[e.words.index(a)], terms, rel), "results are sorted")
    if res:
        last = sims[e.words.index(seen[-1])]
        for i in allowed:
            if e.words[i] not in seen:
                E.check(E.lt(sims[i], last, terms, rel), "no better word is left out")


def many(E, case):
    """a larger vocabulary: fixed rows but one"""
    n = case["n"]
    words = emb.many_words(n)
    e = emb.Emb()
    emb.vocab(E, e, "simple", words)
    vals = [float((i * 67) % 151) - 70 for i in range(n)]
    m = E.np.array([[v] for v in vals], dtype=E.np.float32)
    x = E.array("x", (1, ))
    # one of the first, or of the last places, and different from all others
    E.assume(E.Or(E.And(x[0] > vals[0] + 0.25, x[0] < vals[0] + 0.75), E.And(x[0] > 200, x[0] < 300)))
    m[7, 0] = x[0]
    e.skind, e.cols = "array", 1
    e.rows = [[m[i, 0]] for i in range(n)]
    em = E.mod("finalfusion.embeddings").Embeddings(E.mod("finalfusion.storage").NdArray(m), e.vocab)
    best = sorted(range(n), key=lambda i: -vals[i])
    skip = {words[i] for i in best[:case["skip"]]}
    res = em.embedding_similarity(E.np.array([1.0], dtype=E.np.float32), k=case["k"], skip=set(skip))
    verify(E, e, res, [1.0], case["k"], skip)


def defaults(E):
    """ten results by default"""
    words = ["w%d" % i for i in range(12)]
    m = E.np.array([[float(i)] for i in range(12)], dtype=E.np.float32)
    x = E.mod("finalfusion.embeddings").Embeddings(E.mod("finalfusion.storage").NdArray(m),
                                                   E.mod("finalfusion.vocab").SimpleVocab(words))
    got = [r.word for r in x.embedding_similarity(E.np.array([1.0], dtype=E.np.float32))]
    E.check(got == words[:1:-1], "ten best words by default")
    got = [r.word for r in x.word_similarity("w3")]
    E.check(got == [w for w in words[::-1] if w != "w3"][:10], "ten best words by default (word)")
    p, i = E.path("e.fifu"), E.path("q")
    x.write(p)
    E.write_bytes(i, b"w3\n")
    r = E.script("finalfusion.scripts.similar", [p, i])
    got = [E.text(l).split()[0] for l in E.lines(r.out) if not is_blank(E.text(l))]
    E.check(got == [w for w in words[::-1] if w != "w3"][:10], "ten best words by default (ffp-similar)")


def is_blank(t):
    return isinstance(t, str) and t == ""
