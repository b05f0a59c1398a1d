"""C12: embedding lookup."""
from . import emb

WITNESSES = ("known", "oov", "none", "default", "default+out", "out-untouched", "iter", "history")
WORDS = ["ab", "", "c\u00e9d"]
OOV = ["x", "abc", "\u4e2d\u6587", "aaaa", "<>", "zz"]
GRAMS = ["<ab", "aaa", "\u4e2d\u6587>", "<x>", "bc>", "<aa"]


def cases(tier):
    out = []
    words = WORDS
    st = [("array", 2, False), ("array", 3, True), ("quant", 2, True), ("quant+proj", 2, False), ("quant+norms", 2, False)]
    if tier != "quick":
        st += [("array", 1, True), ("array", 4, False), ("quant+proj+norms", 2, True), ("quant+norms", 4, True)]
    for kind in ("simple", "bucket", "fasttext", "explicit"):
        for skind, cols, nm in st:
            oov = OOV[:1] if kind == "simple" else OOV
            if tier == "quick" and skind != "array" and kind != "simple":
                oov = OOV[:2] + OOV[3:4]
            for q in words + oov + [""] * 0:
                out.append(dict(name="%s-%s-%d%s-%r" % (kind, skind, cols, "-norms" if nm else "", q), kind=kind, skind=skind,
                                cols=cols, norms=nm, q=q, mode="lookup"))
            out.append(dict(name="%s-%s-%d%s-iter" % (kind, skind, cols, "-norms" if nm else ""), kind=kind, skind=skind,
                            cols=cols, norms=nm, mode="iter"))
            out.append(dict(name="%s-%s-%d%s-history" % (kind, skind, cols, "-norms" if nm else ""), kind=kind, skind=skind,
                            cols=cols, norms=nm, mode="history"))
    # no embedding at all: below min_n
    for nm in (False, True):
        out.append(dict(name="bucket-short-%s" % nm, kind="bucket", skind="array", cols=2, norms=nm, q="x", mode="lookup",
                        lo=5, hi=6))
        out.append(dict(name="explicit-none-%s" % nm, kind="explicit", skind="array", cols=2, norms=nm, q="nope",
                        mode="lookup"))
    for kind in ("simple", "fasttext"):
        for q in ("w0", "w4", "w296", "x"):
            out.append(dict(name="many-%s-%s" % (kind, q), kind=kind, skind="array", cols=2, norms=True, q=q, mode="lookup", many=300))
        out.append(dict(name="many-%s-iter" % kind, kind=kind, skind="array", cols=2, norms=True, mode="iter", many=300))
    return out


def run(E, case):
    kind = case["kind"]
    WORDS = emb.many_words(case["many"]) if case.get("many") else globals()["WORDS"]
    e = emb.build(E, kind, WORDS, case["skind"], case["cols"], case["norms"], lo=case.get("lo", 3), hi=case.get("hi", 4),
                  size=3 if kind == "fasttext" else 1, grams=GRAMS, codes=(0, 1, 1, 0, 0, 1, 1), layout="few" if case.get("many") else None)
    before = E.np.array(e.matrix) if e.skind == "array" else None
    em = e.emb
    if case["mode"] == "iter":
        E.note("iter")
        got = list(em)
        E.check(len(got) == e.n, "iteration gives every word")
        for i, item in enumerate(got):
            E.check(len(item) == (3 if case["norms"] else 2), "iteration items")
            E.check(E.eq(item[0], WORDS[i]), "iterated word")
            emb.same(E, item[1], e.rows[i], "iterated row", exact=e.skind == "array")
            if case["norms"]:
                E.check(E.eq(item[2], e.norms[i]), "iterated norm")
        E.check(em.n_words == e.n and em.dims == e.cols, "dimensions")
        return untouched(E, e, before)
    if case["mode"] == "history":
        return history(E, e, case, before)
    q = case["q"]
    out = E.array("out", (e.cols, ))
    old = [out[j] for j in range(e.cols)]
    if q in WORDS:
        E.note("known")
        i = WORDS.index(q)
        ex = e.skind == "array"
        emb.same(E, em[q], e.rows[i], "item access of a word", ex)
        emb.same(E, em.embedding(q), e.rows[i], "embedding of a word", ex)
        emb.same(E, em.embedding(q, default=out), e.rows[i], "embedding of a word with a default", ex)
        emb.same(E, out, old, "default is not written to")
        r = em.embedding(q, out=out)
        emb.same(E, r, e.rows[i], "embedding of a word into a buffer", ex)
        emb.same(E, out, e.rows[i], "buffer holds the embedding of a word", ex)
        E.check(E.truth(em.__contains__(q)), "words are contained")
        r = E.attempt(em.embedding_with_norm, q)
        E.check((r.exc is None) == case["norms"], "norms are needed for embedding_with_norm")
        if case["norms"]:
            emb.same(E, r.value[0], e.rows[i], "embedding_with_norm of a word", ex)
            E.check(E.eq(r.value[1], e.norms[i]), "norm of a word")
            buf = E.np.zeros(e.cols, dtype=E.np.float32)
            r = em.embedding_with_norm(q, out=buf)
            emb.same(E, r[0], e.rows[i], "embedding_with_norm of a word into a buffer", ex)
            emb.same(E, buf, e.rows[i], "buffer holds the embedding", ex)
            E.check(E.eq(r[1], e.norms[i]), "norm of a word with a buffer")
        return untouched(E, e, before)
    E.check(E.Not(em.__contains__(q)), "unknown words are not contained")
    idx = emb.subword_rows(E, e, q) if kind != "simple" else []
    if not idx:
        E.note("none")
        E.check(isinstance(E.attempt(lambda: em[q]).exc, KeyError), "item access without embedding")
        E.check(em.embedding(q) is None, "no embedding")
        d = E.array("default", (e.cols, ))
        dv = [d[j] for j in range(e.cols)]
        E.note("default")
        emb.same(E, em.embedding(q, default=d), dv, "default is returned")
        E.note("out-untouched")
        E.check(em.embedding(q, out=out) is None, "no embedding with a buffer")
        emb.same(E, out, old, "buffer is left alone without a default")
        E.note("default+out")
        emb.same(E, em.embedding(q, out=out, default=d), dv, "default is returned with a buffer")
        emb.same(E, out, dv, "default is written to the buffer")
        emb.same(E, d, dv, "the default is not changed")
        r = E.attempt(em.embedding_with_norm, q)
        E.check((r.exc is None) == case["norms"], "norms are needed for embedding_with_norm")
        if case["norms"]:
            E.check(r.value is None, "no embedding_with_norm")
            nd = E.real("default_norm")
            got = em.embedding_with_norm(q, default=(d, nd))
            emb.same(E, got[0], dv, "default embedding is returned")
            E.check(E.eq(got[1], nd), "default norm is returned")
            buf = E.array("buf", (e.cols, ))
            bv = [buf[j] for j in range(e.cols)]
            E.check(em.embedding_with_norm(q, out=buf) is None, "no embedding_with_norm with a buffer")
            emb.same(E, buf, bv, "buffer is left alone without a default (with norm)")
            got = em.embedding_with_norm(q, out=buf, default=(d, nd))
            emb.same(E, got[0], dv, "default embedding is returned with a buffer")
            emb.same(E, buf, dv, "default embedding is written to the buffer")
            E.check(E.eq(got[1], nd), "default norm is returned with a buffer")
        return untouched(E, e, before)
    E.note("oov")
    want = [emb.total([e.rows[i][j] for i in idx]) for j in range(e.cols)]
    sq = emb.total([w * w for w in want])
    E.assume(sq > (0 if E.symbolic else 1e-4))
    oov(E, e, em[q], want, sq, "item access of an unknown word")
    oov(E, e, em.embedding(q), want, sq, "embedding of an unknown word")
    oov(E, e, em.embedding(q, default=out), want, sq, "embedding of an unknown word with a default")
    emb.same(E, out, old, "default is not written to")
    oov(E, e, em.embedding(q, out=out), want, sq, "embedding of an unknown word into a buffer")
    oov(E, e, out, want, sq, "buffer holds the embedding of an unknown word")
    r = E.attempt(em.embedding_with_norm, q)
    E.check((r.exc is None) == case["norms"], "norms are needed for embedding_with_norm")
    if case["norms"]:
        oov(E, e, r.value[0], want, sq, "embedding_with_norm of an unknown word", r.value[1])
        buf = E.np.zeros(e.cols, dtype=E.np.float32)
        r = em.embedding_with_norm(q, out=buf)
        oov(E, e, r[0], want, sq, "embedding_with_norm of an unknown word into a buffer", r[1])
        oov(E, e, buf, want, sq, "buffer holds the embedding of an unknown word", r[1])
    untouched(E, e, before)


def history(E, e, case, before):
    """several lookups through one buffer (a column of a matrix): none depends on the ones before"""
    E.note("history")
    em, kept = e.emb, []
    wide = E.np.array([[7.0, 5.0]] * e.cols, dtype=E.np.float32)
    buf = wide[:, 0]
    for step, q in enumerate(["ab", "x", "nope", "c\u00e9d", "aaaa", "ab", "x"]):
        if q in WORDS:
            i = WORDS.index(q)

            def test(got, what, norm=None, i=i):
                emb.same(E, got, e.rows[i], what, e.skind == "array")
                if norm is not None:
                    E.check(E.eq(norm, e.norms[i]), what + ": norm")
        else:
            idx = emb.subword_rows(E, e, q) if e.kind != "simple" else []
            if not idx:
                E.check(em.embedding(q, out=buf) is None, "no embedding in a sequence")
                continue
            want = [emb.total([e.rows[i][j] for i in idx]) for j in range(e.cols)]
            sq = emb.total([w * w for w in want])
            if step < 5:
                E.assume(sq > (0 if E.symbolic else 1e-4))

            def test(got, what, norm=None, want=want, sq=sq):
                oov(E, e, got, want, sq, what, norm)
        got = em[q]
        test(got, "item access in a sequence of lookups")
        kept.append((test, got))
        if case["norms"] and step % 2:
            got, norm = em.embedding_with_norm(q, out=buf)
            test(got, "embedding_with_norm in a sequence of lookups", norm)
        elif E.symbolic or "proj" not in e.skind:
            test(em.embedding(q, out=buf), "embedding in a sequence of lookups")
        else:
            continue
        test(buf, "buffer in a sequence of lookups")
        for j in range(e.cols):
            E.check(E.eq(wide[j, 1], 5.0), "only the buffer is written to")
    for test, got in kept:
        test(got, "an earlier result is not changed by later lookups")
    untouched(E, e, before)


def oov(E, e, got, want, sq, what, norm=None):
    """got is want / sqrt(sq)"""
    E.check(got is not None, what + ": there is a result")
    a = E.np.asarray(got)
    E.check(a.ndim == 1 and a.shape[0] == len(want), what + ": shape")
    root = E.sqrt(sq)
    parts = ()
    if not E.symbolic:
        size = sum(abs(float(x)) for r in e.rows for x in r)
        parts = (size, size * size / float(root) / 4)
    for j, w in enumerate(want):
        E.check(E.tight(a[j] * root, w, parts), what)
    if norm is not None:
        E.check(E.tight(norm, root, parts), what + ": norm")


def untouched(E, e, before):
    if before is not None:
        E.check(E.eq(E.np.asarray(e.storage), before), "the storage is not modified")
