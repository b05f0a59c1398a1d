"""C16: quantized storage reconstructs the same row through every access path."""
from . import emb

WITNESSES = ("rows", "slices", "buffers")


def cases(tier):
    out = []
    shapes = [(2, 2, 1), (1, 3, 2), (2, 2, 2)] if tier == "quick" else [(2, 2, 1), (1, 3, 2), (2, 2, 2), (3, 2, 1), (2, 3, 2)]
    for kind in ("quant", "quant+proj", "quant+norms", "quant+proj+norms"):
        for q, c, d in shapes:
            for rows in (0, 1, 3):
                for mode in ("rows", "slices", "buffers", "concrete"):
                    if mode in ("rows", "buffers") and rows == 0:
                        continue
                    if rows == 3 and "proj" in kind and d * q > 2 and mode != "concrete":
                        continue
                    out.append(dict(name="%s-%dx%dx%d-%d-%s" % (kind, q, c, d, rows, mode), kind=kind, q=q, c=c, d=d, n=rows,
                                    mode=mode, weight=rows + q * d))
    # codes that need all the bits of a byte
    for c in (129, 256):
        for n in (1, 2):
            out.append(dict(name="wide-%d-%d" % (c, n), kind="quant", q=1, c=c, d=1, n=n, mode="rows"))
    return out


def run(E, case):
    n, q, d = case["n"], case["q"], case["d"]
    e = emb.Emb()
    e.ub = n
    mode = case["mode"]
    emb.storage(E, e, case["kind"], q * d, n, q, case["c"],
                codes=(1, 0, 0, 1, 2, 1, 0) if mode == "concrete" else None)
    st, np = e.storage, E.np
    E.check(tuple(st.shape) == (n, e.cols), "shape")
    E.check(len(st) == n, "length")
    cols = e.cols

    def row(got, i, what):
        emb.same(E, got, e.rows[i], what, exact=False)

    def many(got, idx, what):
        a = np.asarray(got)
        E.check(a.ndim == 2 and a.shape[0] == len(idx) and a.shape[1] == cols, what + ": shape")
        for k, i in enumerate(idx):
            row(a[k], i, what)

    if mode in ("rows", "concrete"):
        E.note("rows")
        for i in range(n):
            row(st[i], i, "integer index")
            row(st[i - n], i, "negative integer index")
            row(st.embedding(i), i, "embedding()")
        for bad in (n, -n - 1):
            E.check(isinstance(E.attempt(lambda: st[bad]).exc, IndexError), "index out of range")
        got = list(iter(st))
        E.check(len(got) == n, "iteration length")
        for i in range(n):
            row(got[i], i, "iteration")
        many(np.asarray(st), range(n), "conversion to an array")
        if n:
            idx = [n - 1, 0, n // 2, n - 1]
            many(st[idx], idx, "list index")
            many(st[np.array(idx)], idx, "array index")
            many(st[[0]], [0], "list of one")
            neg = [-1, 0]
            many(st[neg], [n - 1, 0], "list with a negative index")
            g = np.asarray(st[np.array([[0, n - 1], [n // 2, 0]])])
            E.check(g.ndim == 3 and tuple(g.shape) == (2, 2, cols), "shape for a two-dimensional index")
            row(g[0, 1], n - 1, "two-dimensional index")
            row(g[1, 0], n // 2, "two-dimensional index")
    if mode in ("slices", "concrete"):
        E.note("slices")
        for sl in (slice(None), slice(1, None), slice(None, 2), slice(None, None, 2), slice(None, None, -1), slice(1, 1),
                   slice(-2, None), slice(0, 100)):
            idx = list(range(n))[sl]
            s = st[sl]
            E.check(tuple(s.shape) == (len(idx), cols), "shape of a slice")
            E.check(len(s) == len(idx), "length of a slice")
            many(np.asarray(s), idx, "slice converted to an array")
            for k, i in enumerate(idx):
                row(s[k], i, "row of a slice")
            for k, r in enumerate(s):
                row(r, idx[k], "iteration over a slice")
            if idx:
                many(s[[len(idx) - 1, 0]], [idx[-1], idx[0]], "list index of a slice")
            for sl2 in (slice(None), slice(1, None), slice(None, None, -1), slice(0, 1)):
                t = s[sl2]
                idx2 = idx[sl2]
                many(np.asarray(t), idx2, "slice of a slice")
                for k, i in enumerate(idx2):
                    row(t[k], i, "row of a slice of a slice")
    if mode in ("buffers", "concrete") and n:
        E.note("buffers")
        for i in range(n):
            buf = E.array("b%d" % i, (cols, ))
            r = st.embedding(i, out=buf)
            row(r, i, "embedding into a buffer")
            row(buf, i, "buffer holds the embedding")
            row(st[i], i, "rows are unchanged after a lookup")
        idx = [n - 1, 0]
        buf = E.array("bm", (2, cols))
        r = st.embedding(idx, out=buf)
        many(r, idx, "embeddings into a buffer")
        many(buf, idx, "buffer holds the embeddings")
        buf = E.array("bs", (n, cols))
        st.embedding(slice(None), out=buf)
        many(buf, range(n), "all embeddings into a buffer")
        # buffers that are not contiguous: numpy refuses some of them, but none is filled with something else
        for i in range(n):
            wide = E.np.array([[7.0, 5.0]] * cols, dtype=E.np.float32)
            r = E.attempt(st.embedding, i, out=wide[:, 0])
            if r.exc is None or "proj" not in case["kind"]:
                E.check(r.exc is None, "strided buffers are accepted without projection")
                row(r.value, i, "embedding into a strided buffer")
                row(wide[:, 0], i, "strided buffer holds the embedding")
            for j in range(cols):
                E.check(E.eq(wide[j, 1], 5.0), "the rest of the buffer is left alone")
        # results are not shared between lookups
        a = st[0]
        b = st[n - 1]
        row(a, 0, "earlier results stay valid")
        row(b, n - 1, "later result")
