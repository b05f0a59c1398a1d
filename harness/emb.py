"""Small embeddings with arbitrary contents: concrete words, symbolic numbers."""
from . import fifu



def many_words(n):
    return [("w%d", "\u00e9%d", "\u4e2d%dx", "%d")[i % 4] % i for i in range(n)]


def few(E, name, shape, dtype="float32"):
    """fixed numbers, but for the first, the last and two other rows"""
    n = shape[0]
    size = 1
    for s in shape[1:]:
        size *= s
    a = E.np.array([[((i * 37 + j * 11) % 509 - 250) / 8.0 + 0.03125 for j in range(size)] for i in range(n)], dtype=dtype)
    at = sorted({0, n // 3, n // 2, n - 1})
    s = E.array(name, (len(at), size), dtype)
    for k, i in enumerate(at):
        for j in range(size):
            a[i, j] = s[k, j]
    return a.reshape(shape)


def numbers(E, name, shape, dtype="float32", layout=None):
    if layout == "few":
        return few(E, name, shape, dtype)
    return E.array(name, shape, dtype) if layout is None else fifu.numbers(E, name, shape, dtype, layout)


class Emb:
    pass


def vocab(E, e, kind, words, lo=3, hi=4, size=1, grams=()):
    """size: bucket exponent or number of buckets"""
    V, S = E.mod("finalfusion.vocab"), E.mod("finalfusion.subword")
    e.kind, e.words, e.lo, e.hi = kind, list(words), lo, hi
    n = len(words)
    if kind == "simple":
        e.vocab, e.ub = V.SimpleVocab(list(words)), n
    elif kind == "bucket":
        e.vocab, e.ub = V.FinalfusionBucketVocab(list(words), S.FinalfusionHashIndexer(size, lo, hi)), n + 2**size
    elif kind == "fasttext":
        e.vocab, e.ub = V.FastTextVocab(list(words), S.FastTextIndexer(size, lo, hi)), n + size
    else:
        e.grams = list(grams)
        e.vocab, e.ub = V.ExplicitVocab(list(words), S.ExplicitIndexer(list(grams), lo, hi)), n + len(grams)
    e.n = n


def storage(E, e, kind, cols, rows=None, q=2, cent=2, codes=None, pre="", dtype="float32", layout=None):
    """kind: array, or quant[+proj][+norms]; e.rows: the expected rows"""
    St = E.mod("finalfusion.storage")
    rows = e.ub if rows is None else rows
    e.skind, e.cols = kind, cols
    if kind == "array":
        e.matrix = numbers(E, pre + "m", (rows, cols), dtype, layout)
        e.rows = [[e.matrix[i, j] for j in range(cols)] for i in range(rows)]
        e.storage = St.NdArray(e.matrix)
        return
    Q = E.mod("finalfusion.storage.quantized")
    d = cols // q
    e.q, e.cent = q, cent
    e.quantizers = E.array(pre + "c", (q, cent, d))
    if codes is None:
        e.codes = E.array(pre + "k", (rows, q), "uint8", 0, cent - 1)
    else:
        e.codes = E.np.array([[codes[(i * q + j) % len(codes)] % cent for j in range(q)] for i in range(rows)],
                             dtype="uint8").reshape((rows, q))
    e.proj = E.array(pre + "p", (cols, cols)) if "proj" in kind else None
    e.qnorms = E.array(pre + "s", (rows, )) if "norms" in kind else None
    e.rows = [quant_row(E, e, i) for i in range(rows)]
    e.storage = St.QuantizedArray(Q.PQ(e.quantizers, e.proj), e.codes, e.qnorms)


def quant_row(E, e, i):
    d = e.cols // e.q
    r = []
    for j in range(e.q):
        for t in range(d):
            r.append(E.pick([e.quantizers[j, c, t] for c in range(e.cent)], e.codes[i, j]))
    if e.proj is not None:
        r = [total([r[t] * e.proj[j, t] for t in range(e.cols)]) for j in range(e.cols)]
    if e.qnorms is not None:
        r = [x * e.qnorms[i] for x in r]
    return r


def total(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t


def build(E, vkind, words, skind="array", cols=2, norms=False, lo=3, hi=4, size=1, grams=(), codes=None, pre="", q=None,
          cent=2, dtype="float32", layout=None):
    e = Emb()
    vocab(E, e, vkind, words, lo, hi, size, grams)
    storage(E, e, skind, cols, codes=codes, pre=pre, q=q or (2 if cols % 2 == 0 else 1), cent=cent, dtype=dtype,
            layout=layout)
    e.norms = numbers(E, pre + "n", (e.n, ), dtype, "few" if layout == "few" else None) if norms else None
    e.emb = E.mod("finalfusion.embeddings").Embeddings(
        e.storage, e.vocab, None if e.norms is None else E.mod("finalfusion.norms").Norms(e.norms))
    return e


def same(E, got, want, what, exact=True):
    """got: array, want: list of numbers"""
    E.check(got is not None, what + ": there is a result")
    a = E.np.asarray(got)
    E.check(a.ndim == 1 and a.shape[0] == len(want), what + ": shape")
    for j, w in enumerate(want):
        E.check(E.eq(a[j], w) if exact else E.close(a[j], w), what)


def subword_rows(E, e, q):
    """rows of the subwords of q, by single n-gram lookups"""
    from . import common
    ix = e.vocab.subword_indexer
    out = []
    for g in common.ngrams(common.bracket(q), e.lo, e.hi):
        if e.kind == "explicit":
            if g in e.grams:
                out.append(e.n + e.grams.index(g))
        else:
            out.append(e.n + int(ix(g)))
    return out
