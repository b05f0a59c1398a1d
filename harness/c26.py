"""C26: results depend only on the current contents, and using embeddings does not change them."""
from . import emb

WITNESSES = ("repeat", "fresh", "mmap", "norms", "metadata", "quantized", "oov", "none")
WORDS = ["ab", "c\u00e9d", "e"]
SHORT = ["e", "ab", "c\u00e9d"]  # the first has no n-grams
GRAMS = ["<ab", "xyz", "<x", "<xy"]
UNKNOWN = "xyz"


def groups(sk, cols):
    return ("use", "write", "rank") if sk in ("array", "quant", "quant+norms") else ("use", "write")


def cases(tier):
    out = []
    kinds = [("simple", "array", 1, True), ("simple", "quant+norms", 2, False), ("bucket", "array", 2, False),
             ("bucket", "array", 1, True), ("bucket", "quant", 2, True), ("fasttext", "array", 2, False),
             ("fasttext", "array", 1, True), ("explicit", "array", 2, True), ("explicit", "quant+proj", 2, False)]
    if tier != "quick":
        kinds += [("simple", "array", 3, False), ("bucket", "quant+proj+norms", 2, True), ("fasttext", "quant+norms", 2, True),
                  ("explicit", "array", 3, False), ("fasttext", "array", 3, True)]
    for vk, sk, cols, nm in kinds:
        for order in ("forward", "backward"):
            for group in groups(sk, cols):
                out.append(dict(name="%s-%s-%d%s-%s-%s" % (vk, sk, cols, "-norms" * nm, group, order), kind=vk, skind=sk,
                                cols=cols, norms=nm, mode="repeat", order=order, group=group, weight=4))
        for group in groups(sk, cols) + (("analogy", ) if sk == "array" and cols == 1 else ()):
            if group == "rank" and cols == 1 and vk != "simple" and tier == "quick":
                continue
            out.append(dict(name="%s-%s-%d%s-%s-changed" % (vk, sk, cols, "-norms" * nm, group), kind=vk, skind=sk, cols=cols,
                            norms=nm, mode="changed", group=group, weight=4))
    for vk in ("bucket", "fasttext"):
        for group in ("use", "write"):
            out.append(dict(name="%s-short-%s" % (vk, group), kind=vk, skind="array", cols=2, norms=True, mode="repeat", order="forward",
                            group=group, weight=4, lo=4))
    for vk in ("simple", "fasttext", "bucket"):
        for extra in (dict(dtype=">f4"), dict(layout="F"), dict(layout="cols")):
            for group in ("use", "write"):
                out.append(dict(name="%s-%s-%s" % (vk, list(extra.values())[0], group), kind=vk, skind="array", cols=2, norms=True,
                                mode="repeat", order="forward", group=group, weight=4, **extra))
    for vk, sk, cols, nm in kinds[:5]:
        out.append(dict(name="%s-%s-%d%s-mmap" % (vk, sk, cols, "-norms" * nm), kind=vk, skind=sk, cols=cols, norms=nm,
                        mode="mmap", order="forward", group="use", weight=4))
    return out


# -- what is compared ------------------------------------------------------------------------------------------------------
def snapshot(E, em):
    """a copy of everything the embeddings consist of"""
    np = E.np
    v, s = em.vocab, em.storage
    d = [("words", [w for w in v.words]), ("index", [v.word_index[w] for w in v.words]), ("upper bound", v.upper_bound),
         ("number of words", len(v))]
    if hasattr(v, "subword_indexer"):
        ix = v.subword_indexer
        d += [("n-gram range", [ix.min_n, ix.max_n]), ("subword bound", ix.upper_bound)]
        if hasattr(ix, "ngrams"):
            d += [("n-grams", [g for g in ix.ngrams]), ("n-gram indices", [ix.ngram_index[g] for g in ix.ngrams])]
    if hasattr(s, "quantizer"):
        d += [("codebook", np.array(s.quantizer.subquantizers)), ("storage", np.array(np.asarray(s)))]
        d += [("projection", None if s.quantizer.projection is None else np.array(s.quantizer.projection))]
    else:
        d += [("storage", np.array(np.asarray(s)))]
    d += [("shape", [s.shape[0], s.shape[1]])]
    d += [("norms", None if em.norms is None else np.array(np.asarray(em.norms)))]
    d += [("metadata", None if em.metadata is None else [[k, em.metadata[k]] for k in sorted(em.metadata)])]
    d += [("origin", em.origin)]
    return d


def unchanged(E, em, before, what):
    for (name, a), (_, b) in zip(snapshot(E, em), before):
        if a is None or b is None or isinstance(a, (list, int, str)):
            E.check(E.eq(a, b) if not (a is None or b is None) else a is b, "%s: %s" % (what, name))
        else:
            E.check(E.same(a, b), "%s: %s" % (what, name))


def match(E, a, b, what):
    """two results of the same operation"""
    if a is None or b is None:
        return E.check(a is b, what)
    if isinstance(a, (list, tuple)):
        E.check(isinstance(b, (list, tuple)) and len(a) == len(b), what)
        for x, y in zip(a, b):
            match(E, x, y, what)
        return
    if isinstance(a, str):
        return E.check(E.eq(a, b), what)
    if hasattr(a, "shape"):
        x, y = E.np.asarray(a), E.np.asarray(b)
        E.check(x.shape == y.shape, what)
        for ix in range(x.shape[0] if x.ndim else 0):
            for u, v in zip(*((t[ix], ) if t.ndim == 1 else [t[ix, j] for j in range(t.shape[1])] for t in (x, y))):
                E.check(E.tight(u, v, ()), what)
        if x.ndim:
            return
    E.check(E.tight(a, b, ()), what)


# -- operations ------------------------------------------------------------------------------------------------------------
class Args:
    """arguments that the operations must leave alone"""

    def __init__(self, E, cols):
        self.E, self.cols = E, cols
        self.query = E.np.array([1.0] + [-2.0] * (cols - 1), dtype=E.np.float32)
        self.default = E.array("default", (cols, ))
        self.dv = [self.default[j] for j in range(cols)]
        self.skip = {WORDS[1], "nope"}
        self.n = 0

    def check(self, what):
        E = self.E
        for j in range(self.cols):
            E.check(E.eq(self.query[j], 1.0 if j == 0 else -2.0), what + ": the query vector is not modified")
            E.check(E.eq(self.default[j], self.dv[j]), what + ": the default is not modified")
        E.check(self.skip == {WORDS[1], "nope"}, what + ": the skip set is not modified")

    def path(self):
        self.n += 1
        return self.E.path("out%d" % self.n)

    def buf(self):
        return self.E.np.zeros(self.cols, dtype=self.E.np.float32)


def copy(E, a):
    return None if a is None else E.np.array(E.np.asarray(a))


def own(E, r, em=None):
    """the vector of an unknown word belongs to the caller"""
    if r.exc is not None:
        return type(r.exc).__name__
    c = copy(E, r.value)
    if r.value is not None and UNKNOWN not in WORDS:
        r.value[...] = 77.0
    return c


def ranks(E, res):
    return None if res is None else [r.similarity for r in res]


def analogy(E, em, a):
    return ranks(E, em.analogy(WORDS[0], WORDS[1], WORDS[2], k=2, skip=a.skip))


def plain_analogy(E, em, q):
    return ranks(E, em.analogy(*q, k=3))


def with_norm(E, em, a, w, buf=False):
    if em.norms is None:
        return E.attempt(em.embedding_with_norm, w).exc is not None and "refused"
    r = em.embedding_with_norm(w, out=a.buf()) if buf else em.embedding_with_norm(w)
    return None if r is None else [copy(E, r[0]), r[1]]


def items(E, em):
    return [[t[0], copy(E, t[1])] + [x for x in t[2:]] for t in em]


def explicit(E, em):
    x = em.bucket_to_explicit()
    v = x.vocab
    return [[w for w in v.words], [g for g in v.subword_indexer.ngrams], [v.subword_indexer(g) for g in v.subword_indexer.ngrams],
            copy(E, x.storage), copy(E, x.norms)]


def file(E, a, write):
    p = a.path()
    write(p)
    return Bytes(E, E.read_bytes(p))


class Bytes:
    def __init__(self, E, b):
        self.b = b


def ops(E, case):
    C = E.mod("finalfusion.compat")
    if case["group"] == "use":
        out = [
            ("item", lambda em, a: copy(E, em[WORDS[0]])),
            ("embedding", lambda em, a: copy(E, em.embedding(WORDS[1]))),
            ("buffer", lambda em, a: copy(E, em.embedding(WORDS[0], out=a.buf()))),
            ("norm", lambda em, a: with_norm(E, em, a, WORDS[0])),
            ("unknown", lambda em, a: copy(E, em.embedding(UNKNOWN, default=a.default))),
            ("unknown buffer", lambda em, a: copy(E, em.embedding(UNKNOWN, out=a.buf(), default=a.default))),
            ("unknown norm", lambda em, a: with_norm(E, em, a, UNKNOWN, True)),
            ("unknown item", lambda em, a: own(E, E.attempt(em.__getitem__, UNKNOWN))),
            ("norm again", lambda em, a: with_norm(E, em, a, WORDS[0])),
            ("unknown result", lambda em, a: own(E, E.attempt(em.embedding, UNKNOWN), em)),
            ("missing", lambda em, a: copy(E, em.embedding("", default=a.default))),
            ("iteration", lambda em, a: items(E, em)),
            ("contains", lambda em, a: [WORDS[0] in em, "nope" in em, WORDS[:2] in em.vocab]),
            ("slice", lambda em, a: copy(E, em.storage[1:3])),
            ("list", lambda em, a: copy(E, em.storage[[2, 0]])),
            ("array", lambda em, a: copy(E, em.storage)),
        ]
        return out
    if case["group"] == "analogy":
        return [("analogy", lambda em, a: analogy(E, em, a))]
    if case["group"] == "rank":
        out = [
            ("similarity", lambda em, a: ranks(E, em.embedding_similarity(a.query, k=1, skip=a.skip))),
            ("item", lambda em, a: copy(E, em[WORDS[0]])),
        ]
        if case["cols"] == 1:
            if case["mode"] != "changed":
                out.append(("analogy", lambda em, a: analogy(E, em, a)))
                out.append(("plain analogy", lambda em, a: plain_analogy(E, em, (WORDS[0], WORDS[1], WORDS[1]))))
                out.append(("other plain analogy", lambda em, a: plain_analogy(E, em, (WORDS[2], WORDS[1], WORDS[2]))))
            out.append(("word similarity", lambda em, a: ranks(E, em.word_similarity(WORDS[0], k=1))))
            out.append(("all similarities", lambda em, a: ranks(E, em.embedding_similarity(a.query, k=4))))
        return out
    out = [
        ("write", lambda em, a: file(E, a, em.write)),
        ("write vocabulary", lambda em, a: file(E, a, em.vocab.write)),
        ("write storage", lambda em, a: file(E, a, em.storage.write)),
        ("item", lambda em, a: copy(E, em[WORDS[0]])),
        ("write norms", lambda em, a: None if em.norms is None else file(E, a, em.norms.write)),
        ("write metadata", lambda em, a: None if em.metadata is None else file(E, a, em.metadata.write)),
        ("word2vec", lambda em, a: file(E, a, lambda p: C.write_word2vec(p, em))),
        ("text", lambda em, a: file(E, a, lambda p: C.write_text(p, em))),
        ("text-dims", lambda em, a: file(E, a, lambda p: C.write_text_dims(p, em))),
    ]
    if case["kind"] == "fasttext":
        out.append(("fastText", lambda em, a: file(E, a, lambda p: C.write_fasttext(p, em))))
    if case["kind"] in ("bucket", "fasttext"):
        out.append(("explicit", lambda em, a: explicit(E, em)))
    return out


def repeated(E, x, y, what):
    if isinstance(x, Bytes):
        return E.check(E.eq(x.b, y.b), what)
    match(E, x, y, what)


# -- cases -----------------------------------------------------------------------------------------------------------------
def nonzero(E, e, xs):
    for r in xs:
        E.assume(emb.total([x * x for x in r]) > (0 if E.symbolic else 1e-2))


def build(E, case):
    lo = case.get("lo", 3)
    e = emb.build(E, case["kind"], WORDS if lo == 3 else SHORT, case["skind"], case["cols"], case["norms"], lo=lo,
                  size=3 if case["kind"] == "fasttext" else 1, grams=GRAMS, codes=(0, 1, 1, 0, 1),
                  dtype=case.get("dtype", "float32"), layout=case.get("layout"))
    e.emb.metadata = E.mod("finalfusion.metadata").Metadata(
        {"a": "b", "none": None, "n": {"c": 3, "e": {}}, "e": {}, "l": [2, 1], "f": False, "s": ""})
    ok(E, e, e.rows)
    if e.norms is not None:
        E.note("norms")
    if case["skind"] != "array":
        E.note("quantized")
    if case["kind"] == "simple":
        E.note("none")
    else:
        E.note("oov")
    return e


def ok(E, e, rows):
    """no division by zero"""
    idx = emb.subword_rows(E, e, UNKNOWN) if e.kind != "simple" else []
    need = [[x + y - z for x, y, z in zip(rows[2], rows[1], rows[0])],
            [2 * x - y for x, y in zip(rows[1], rows[0])], rows[1]] if e.cols == 1 else []
    if idx:
        need.append([emb.total([rows[i][j] for i in idx]) for j in range(e.cols)])
    nonzero(E, e, need)


def run(E, case):
    e = build(E, case)
    a = Args(E, case["cols"])
    todo = ops(E, case)
    em = e.emb
    if case["mode"] == "changed":
        return changed(E, e, em, a, todo, case)
    disk = None
    if case["mode"] == "mmap":
        p = E.path("in.fifu")
        em.write(p)
        em = E.mod("finalfusion").load_finalfusion(p, mmap=True)
        disk = E.read_bytes(p)
        E.note("mmap")
    if case["order"] == "backward":
        todo = todo[::-1]
    before = snapshot(E, em)
    first = []
    for name, op in todo:
        first.append(op(em, a))
        a.check(name)
        unchanged(E, em, before, "after " + name)
    E.note("metadata")
    for i in (range(len(todo)) if case["order"] == "forward" else range(len(todo) - 1, -1, -1)):
        name, op = todo[i]
        repeated(E, first[i], op(em, a), name + " repeated")
        a.check(name + " repeated")
    unchanged(E, em, before, "after everything")
    if disk is not None:
        E.check(E.eq(E.read_bytes(p), disk), "the file is not modified")
    E.note("repeat")


def changed(E, e, em, a, todo, case):
    """everything is used once, then the contents change: the results are those of embeddings created with these contents"""
    for name, op in todo:
        op(em, a)
    M = E.mod("finalfusion.metadata")
    if case["norms"]:
        em.norms = E.mod("finalfusion.norms").Norms(E.array("other", (e.n, )))
    em.metadata = M.Metadata({"z": 1})
    rows = e.rows
    if case["skind"] == "array":
        at = [0] + ([len(rows) - 1] if e.kind != "simple" else [])
        rows = list(rows)
        for i in at:
            new = E.array("row%d" % i, (e.cols, ))
            for j in range(e.cols):
                em.storage[i, j] = new[j]
            rows[i] = [new[j] for j in range(e.cols)]
        ok(E, e, rows)
    x = fresh(E, e, em, case)
    E.note("fresh")
    for name, op in todo:
        repeated(E, op(x, a), op(em, a), name + " after a change")


def fresh(E, e, em, case):
    """new embeddings with the same contents"""
    St = E.mod("finalfusion.storage")
    n = emb.Emb()
    emb.vocab(E, n, case["kind"], WORDS, size=3 if case["kind"] == "fasttext" else 1, grams=GRAMS)
    if case["skind"] == "array":
        st = St.NdArray(E.np.array(E.np.asarray(em.storage)))
    else:
        Q = E.mod("finalfusion.storage.quantized")
        st = St.QuantizedArray(Q.PQ(copy(E, e.quantizers), copy(E, e.proj)), copy(E, e.codes), copy(E, e.qnorms))
    return E.mod("finalfusion.embeddings").Embeddings(
        st, n.vocab, None if em.norms is None else E.mod("finalfusion.norms").Norms(copy(E, em.norms)),
        E.mod("finalfusion.metadata").Metadata({"z": 1}))
