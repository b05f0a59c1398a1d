"""C28: array storage and norms give the same rows through every access path."""
from . import emb

WITNESSES = ("rows", "slices", "nested", "shared", "mapped", "written", "norms", "refused", "embeddings", "any")
SLICES = (slice(None), slice(1, None), slice(None, 2), slice(None, None, 2), slice(None, None, -1), slice(1, 1), slice(-2, None),
          slice(0, 100), slice(-1, None, -2), slice(2, 0, -1), slice(1, -1), slice(-100, 2))


def cases(tier):
    out = []
    for n in (0, 1, 2, 3, 4) if tier == "quick" else range(7):
        for cols in (1, 2) if tier == "quick" else (1, 2, 3):
            for extra in (dict(), dict(dtype=">f4"), dict(layout="F"), dict(layout="cols"), dict(mmap=True)):
                if n == 0 and extra.get("mmap"):
                    continue  # numpy maps no empty regions
                if extra and n not in (1, 3) and tier == "quick":
                    continue
                tag = "".join("-%s" % (v if v is not True else k) for k, v in extra.items())
                out.append(dict(name="array-%dx%d%s" % (n, cols, tag), mode="array", n=n, cols=cols, **extra))
    for n in (0, 1, 2, 3) if tier == "quick" else range(6):
        for extra in (dict(), dict(dtype=">f4"), dict(loaded=True)):
            tag = "".join("-%s" % (v if v is not True else k) for k, v in extra.items())
            out.append(dict(name="norms-%d%s" % (n, tag), mode="norms", n=n, **extra))
    for n in (1, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for what in ("array", "norms", "mapped"):
            out.append(dict(name="any-index-%s-%d" % (what, n), mode="index", n=n, what=what))
            for step in (None, 1, 2, -1, -2):
                out.append(dict(name="any-slice-%s-%d-%s" % (what, n, step), mode="slice", n=n, what=what, step=step))
    for n in (2, 3) if tier == "quick" else (2, 3, 4, 5):
        for mm in (False, True):
            out.append(dict(name="embeddings-%d%s" % (n, "-mmap" * mm), mode="embeddings", n=n, mmap=mm))
    return out


def run(E, case):
    return globals()["run_" + case["mode"]](E, case)


def rows_of(E, m, n, cols):
    return [[m[i, j] for j in range(cols)] for i in range(n)]


def row(E, r, want, what):
    E.check(not hasattr(r, "write_chunk"), what + ": a plain array")
    E.check(tuple(r.shape) == (len(want), ), what + ": shape")
    for j, v in enumerate(want):
        E.check(E.eq(r[j], v), what)


def many(E, m, want, cols, what):
    E.check(tuple(m.shape) == (len(want), cols), what + ": shape")
    for i, w in enumerate(want):
        for j in range(cols):
            E.check(E.eq(m[i][j], w[j]), what)


def refused(E, s, i, what):
    try:
        s[i]
    except IndexError:
        return E.note("refused")
    E.check(False, what)


def access(E, s, want, cols, what):
    """everything one can ask storage s for, whose rows are want"""
    np = E.np
    n = len(want)
    E.check(type(s).__name__ == "NdArray", what + ": is storage")
    E.check(tuple(s.shape) == (n, cols), what + ": shape")
    E.check(len(s) == n, what + ": length")
    many(E, np.asarray(s), want, cols, what + " as an array")
    got = [r for r in s]
    E.check(len(got) == n, what + ": length of the iteration")
    for i in range(n):
        row(E, got[i], want[i], what + ": iteration")
        row(E, s[i], want[i], what + ": row by index")
        row(E, s[i - n], want[i], what + ": row by negative index")
        row(E, s[np.int64(i)], want[i], what + ": row by numpy integer")
        for j in range(cols):
            E.check(E.eq(s[i, j], want[i][j]), what + ": component")
    if n:
        ix = [n - 1, 0, -1, n // 2]
        sel = s[ix]
        E.check(not hasattr(sel, "write_chunk"), what + ": rows by a list are a plain array")
        many(E, sel, [want[i] for i in ix], cols, what + ": rows by a list")
        sel = s[np.array(ix)]
        E.check(not hasattr(sel, "write_chunk"), what + ": rows by an array are a plain array")
        many(E, sel, [want[i] for i in ix], cols, what + ": rows by an array")
        mask = [i % 2 == 0 for i in range(n)]
        many(E, s[np.array(mask)], [w for w, b in zip(want, mask) if b], cols, what + ": rows by a mask")
    refused(E, s, n, what + ": index behind the last row is refused")
    refused(E, s, -n - 1, what + ": index in front of the first row is refused")


def run_array(E, case):
    n, cols = case["n"], case["cols"]
    St = E.mod("finalfusion.storage")
    m = emb.numbers(E, "m", (n, cols), case.get("dtype", "float32"), case.get("layout"))
    want = rows_of(E, m, n, cols)
    s = St.NdArray(m)
    if case.get("mmap"):
        p = E.path("s")
        s.write(p)
        s = St.load_storage(p, mmap=True)
        E.note("mapped")
    access(E, s, want, cols, "storage")
    E.note("rows")
    for k, sl in enumerate(SLICES):
        t = s[sl]
        idx = list(range(n))[sl]
        access(E, t, [want[i] for i in idx], cols, "slice %d" % k)
        E.note("slices")
        for sl2 in SLICES[1:5]:
            u = t[sl2]
            many(E, E.np.asarray(u), [want[i] for i in idx[sl2]], cols, "slice %d of a slice" % k)
            E.check(type(u).__name__ == "NdArray", "slice of a slice is storage")
        E.note("nested")
        if idx and not case.get("layout"):
            p = E.path("t%d" % k)
            t.write(p)
            many(E, E.np.asarray(St.load_storage(p)), [want[i] for i in idx], cols, "written slice %d" % k)
            E.note("written")
    many(E, E.np.asarray(s), want, cols, "storage afterwards")
    if n and not case.get("mmap"):
        # slices are backed by the same array
        x = E.array("x", (cols, ))
        xs = [x[j] for j in range(cols)]
        t = s[n - 1:]
        t[0] = x
        access(E, s, want[:-1] + [xs], cols, "storage after its slice was assigned to")
        y = s[:1]
        s[0] = x
        access(E, y, [xs], cols, "slice after its storage was assigned to")
        E.note("shared")


def run_norms(E, case):
    n = case["n"]
    np = E.np
    N = E.mod("finalfusion.norms")
    a = E.array("n", (n, ), case.get("dtype", "float32"))
    want = [a[i] for i in range(n)]
    s = N.Norms(a)
    if case.get("loaded"):
        p = E.path("n")
        s.write(p)
        s = N.load_norms(p)

    def check(s, want, what):
        E.check(type(s).__name__ == "Norms", what + ": are norms")
        E.check(len(s) == len(want), what + ": length")
        E.check(tuple(s.shape) == (len(want), ), what + ": shape")
        got = [x for x in s]
        E.check(len(got) == len(want), what + ": length of the iteration")
        for i in range(len(want)):
            E.check(E.eq(got[i], want[i]), what + ": iteration")
            E.check(E.eq(s[i], want[i]), what + ": by index")
            E.check(E.eq(s[i - len(want)], want[i]), what + ": by negative index")
        if want:
            sel = s[[len(want) - 1, 0]]
            E.check(E.And(E.eq(sel[0], want[-1]), E.eq(sel[1], want[0])), what + ": by a list")
        refused(E, s, len(want), what + ": index behind the last one is refused")
        refused(E, s, -len(want) - 1, what + ": index in front of the first one is refused")

    check(s, want, "norms")
    for k, sl in enumerate(SLICES):
        t = s[sl]
        check(t, want[sl], "slice %d" % k)
        p = E.path("t%d" % k)
        t.write(p)
        check(N.load_norms(p), want[sl], "written slice %d" % k)
    check(s, want, "norms afterwards")
    E.note("norms")


def run_embeddings(E, case):
    """embeddings of some of the words, sharing storage and norms with those they come from"""
    n = case["n"]
    words = ["w%d" % i for i in range(n)]
    e = emb.build(E, "simple", words, "array", 2, True)
    em = e.emb
    rows, norms = e.rows, e.norms
    if case["mmap"]:
        p = E.path("e")
        em.write(p)
        em = E.mod("finalfusion").load_finalfusion(p, mmap=True)
    V, F = E.mod("finalfusion.vocab"), E.mod("finalfusion.embeddings")
    for k, sl in enumerate(SLICES):
        ix = list(range(n))[sl]
        if not ix:
            continue
        sub = F.Embeddings(em.storage[sl], V.SimpleVocab([words[i] for i in ix]), em.norms[sl])
        for i in ix:
            r, nr = sub.embedding_with_norm(words[i]) if hasattr(sub, "embedding_with_norm") else (sub[words[i]], sub.norms[ix.index(i)])
            row(E, sub[words[i]], rows[i], "embedding from slice %d" % k)
            row(E, r, rows[i], "embedding with norm from slice %d" % k)
            E.check(E.eq(nr, norms[i]), "norm from slice %d" % k)
        p = E.path("s%d" % k)
        sub.write(p)
        back = E.mod("finalfusion").load_finalfusion(p)
        for i in ix:
            row(E, back[words[i]], rows[i], "embedding written from slice %d" % k)
            E.check(E.eq(back.norms[ix.index(i)], norms[i]), "norm written from slice %d" % k)
    E.note("embeddings")


def subject(E, case):
    """storage or norms, the expected entries, and how to compare one"""
    n, what = case["n"], case["what"]
    if what == "norms":
        a = E.array("n", (n, ))
        return E.mod("finalfusion.norms").Norms(a), [a[i] for i in range(n)], lambda x, w, t: E.check(E.eq(x, w), t)
    m = E.array("m", (n, 2))
    s = E.mod("finalfusion.storage").NdArray(m)
    want = rows_of(E, m, n, 2)
    if what == "mapped":
        s.write(E.path("s"))
        s = E.mod("finalfusion.storage").load_storage(E.path("s"), mmap=True)
    return s, want, lambda x, w, t: row(E, x, w, t)


def run_index(E, case):
    n = case["n"]
    s, want, same = subject(E, case)
    i = E.int("index", None, None, soft=None)
    if E.truth(E.Or(i < -n, i >= n)):
        E.assume(E.And(i >= -2**63, i < 2**63))
        try:
            s[i]
        except IndexError:
            E.note("any")
            return
        return E.check(False, "any index out of range is refused")
    k = i + 0
    for j in range(-n, n):
        if E.truth(k == j):
            same(s[i], want[j], "any index in range")


def run_slice(E, case):
    n = case["n"]
    s, want, same = subject(E, case)
    a = E.int("start", -n - 2, n + 2)
    b = E.int("stop", -n - 2, n + 2)
    a = None if E.truth(a == n + 2) else a
    b = None if E.truth(b == n + 2) else b
    t = s[slice(a, b, case["step"])]
    ends = []
    for x in (a, b):
        if x is None:
            ends.append(None)
        for j in range(-n - 2, n + 2):
            if x is not None and E.truth(x == j):
                ends.append(j)
    idx = list(range(n))[slice(ends[0], ends[1], case["step"])]
    E.check(len(t) == len(idx), "length of any slice")
    E.check(type(t).__name__ == type(s).__name__, "type of any slice")
    for k, i in enumerate(idx):
        same(t[k], want[i], "entry of any slice")
    E.note("any")
