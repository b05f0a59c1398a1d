"""C29: byte layout of word2vec, text, text-dims and fastText files, written and read."""
import struct
from . import emb, c17, c19

WITNESSES = ("word2vec", "text", "textdims", "fasttext", "norms", "no-norms", "subwords", "quantized", "foreign", "sep")
WORDS = ["ab", "\u00fc\u00a0x", "\U0001f600", "c"]


def cases(tier):
    out = []
    kinds = [("simple", "array", False), ("simple", "array", True), ("bucket", "array", True), ("explicit", "quant", False),
             ("fasttext", "array", True), ("simple", "quant+proj+norms", True)]
    for cols in (1, 2) if tier == "quick" else (1, 2, 3, 5):
        for n in (1, 3) if tier == "quick" else (1, 2, 3, 4):
            for vk, sk, nm in kinds:
                if cols == 1 and sk != "array":
                    continue
                for fmt in ("word2vec", "text", "textdims"):
                    out.append(dict(name="write-%s-%s-%s%s-%dx%d" % (fmt, vk, sk, "-norms" * nm, n, cols), mode="write", fmt=fmt, vkind=vk,
                                    skind=sk, norms=nm, n=n, cols=cols))
            for sk, nm in (("array", False), ("array", True), ("quant", True)):
                if cols == 1 and sk != "array":
                    continue
                for lo, hi, b in ((3, 3, 1), (3, 6, 3), (1, 2, 2)):
                    out.append(dict(name="write-fasttext-%s%s-%dx%d-%d:%d-%d" % (sk, "-norms" * nm, n, cols, lo, hi, b), mode="ft", skind=sk,
                                    norms=nm, n=n, cols=cols, lo=lo, hi=hi, b=b))
            for fmt in ("text", "textdims"):
                out.append(dict(name="write-%s-tab-%dx%d" % (fmt, n, cols), mode="write", fmt=fmt, vkind="simple", skind="array", norms=True,
                                n=n, cols=cols, sep="\t"))
                out.append(dict(name="write-%s-locale-%dx%d" % (fmt, n, cols), mode="write", fmt=fmt, vkind="simple", skind="array", norms=True,
                                n=n, cols=cols, locale=True))
            for extra in (dict(dtype=">f4"), dict(layout="F"), dict(layout="cols")):
                out.append(dict(name="write-word2vec-%s-%dx%d" % (list(extra.values())[0], n, cols), mode="write", fmt="word2vec",
                                vkind="simple", skind="array", norms=False, n=n, cols=cols, **extra))
            for k in ("newline", "plain", "header"):
                out.append(dict(name="read-word2vec-%s-%dx%d" % (k, n, cols), mode="read", fmt="word2vec", kind=k, n=n, cols=cols))
            for fmt in ("text", "textdims"):
                for k in ("plain", "locale", "tabs", "spaces", "trailing", "crlf", "open", "numbers"):
                    out.append(dict(name="read-%s-%s-%dx%d" % (fmt, k, n, cols), mode="read", fmt=fmt, kind=k, n=n, cols=cols))
    return out


def run(E, case):
    return globals()["run_" + case["mode"]](E, case)


def run_write(E, case):
    n, cols, fmt = case["n"], case["cols"], case["fmt"]
    e = c17.build(E, dict(case, lens=(), words=None), words=WORDS[:n])
    p = E.path("out")
    C = E.mod("finalfusion.compat")
    E.note(fmt)
    if case.get("locale"):
        E.c_locale()
    if fmt == "word2vec":
        C.write_word2vec(p, e.emb)
        return word2vec(E, E.read_bytes(p), e)
    f = C.write_text if fmt == "text" else C.write_text_dims
    if case.get("sep"):
        f(p, e.emb, sep=case["sep"])
        E.note("sep")
    else:
        f(p, e.emb)
    text(E, E.decode(E.read_bytes(p)), e, fmt == "textdims", case.get("sep", " "))


def same(E, e, x, y):
    """single numbers: written as they are without norms, rounded at most twice when they come from an array"""
    if e.skind == "array" and e.norms is None:
        return E.float32(x, y)
    return E.near(x, y) if e.skind == "array" else E.close(x, y)


def word2vec(E, data, e):
    pos = 0

    def take(n):
        nonlocal pos
        r = data[pos:pos + n]
        pos += n
        return r

    head = ("%d %d\n" % (e.n, e.cols)).encode()
    E.check(E.eq(take(len(head)), head), "word2vec: first line")
    for i, w in enumerate(e.words):
        b = w.encode("utf-8") + b" "
        E.check(E.eq(take(len(b)), b), "word2vec: word and a space")
        for j in range(e.cols):
            x, = E.unpack("<f", take(4))
            E.check(same(E, e, x, e.plain[i][j]), "word2vec: little-endian component")
        E.check(E.eq(take(1), b"\n"), "word2vec: newline after the vector")
    E.check(E.eq(E.length(data), pos), "word2vec: nothing follows the last vector")


def text(E, t, e, dims, sep):
    ls = E.lines(t)
    if dims:
        E.check(E.text(ls[0]) == "%d %d" % (e.n, e.cols), "text-dims: first line")
        ls = ls[1:]
    E.check(len(ls) == e.n, "text: one line per word")
    for i, w in enumerate(e.words):
        a = ls[i].split(sep)
        if sep != " ":
            E.check(len(a) == 2, "text: word, separator and the components")
            a = [a[0]] + a[1].split(" ")
        E.check(len(a) == e.cols + 1, "text: word and components")
        E.check(E.text(a[0]) == w, "text: word")
        for j in range(e.cols):
            E.check(same(E, e, E.float(a[1 + j]), e.plain[i][j]), "text: component")


def run_ft(E, case):
    n, cols, b = case["n"], case["cols"], case["b"]
    ws = WORDS[:n]
    e = emb.build(E, "fasttext", ws, case["skind"], cols, case["norms"], case["lo"], case["hi"], b, codes=(0, 1, 1, 0, 1))
    E.note("norms" if case["norms"] else "no-norms")
    p = E.path("out")
    E.mod("finalfusion.compat").write_fasttext(p, e.emb)
    data = E.read_bytes(p)
    pos = 0

    def take(n):
        nonlocal pos
        r = data[pos:pos + n]
        pos += n
        return r

    def fixed(fmt, want, what):
        got = E.unpack(fmt, take(struct.calcsize(fmt)))
        for x, y in zip(got, want):
            E.check(E.eq(x, y), "fastText: " + what)

    fixed("<ii", (793712314, 12), "magic and version")
    fixed("<12id", (cols, 0, 0, 0, 0, 1, 1, 1, b, case["lo"], case["hi"], 0, 0.0), "configuration")
    fixed("<iii", (n, n, 0), "numbers of entries")
    take(8)  # number of tokens: unknown
    pruned, = E.unpack("<q", take(8))
    E.check(pruned < 0, "fastText: not pruned")
    for w in ws:
        x = w.encode("utf-8") + b"\0"
        E.check(E.eq(take(len(x)), x), "fastText: word")
        take(8)  # frequency: unknown
        fixed("<b", (0, ), "type of the entry")
    fixed("<?", (False, ), "not quantized")
    fixed("<qq", (n + b, cols), "shape")
    sub = c19.subwords(E, ws, case)
    for i in range(n):
        for j in range(cols):
            rows = [e.rows[n + s][j] for s in sub[i]]
            v = e.rows[i][j] * (e.norms[i] if case["norms"] else 1) * (len(rows) + 1)
            x, = E.unpack("<f", take(4))
            E.check(E.tight(x + emb.total(rows), v, [v] + rows), "fastText: word vector without its subwords")
    for i in range(b):
        for j in range(cols):
            x, = E.unpack("<f", take(4))
            E.check(E.eq(x, e.rows[n + i][j]) if case["skind"] == "array" else E.close(x, e.rows[n + i][j]), "fastText: subword vector")
    E.note("fasttext")


def run_read(E, case):
    """files other programs write"""
    n, cols, fmt, kind = case["n"], case["cols"], case["fmt"], case["kind"]
    ws = WORDS[:n]
    C = E.mod("finalfusion.compat")
    p = E.path("in")
    E.note("foreign")
    if fmt == "word2vec":
        m = E.array("m", (n, cols))
        plain = [[m[i, j] for j in range(cols)] for i in range(n)]
        for r in plain:
            E.assume(emb.total([x * x for x in r]) > 0)
        data = ["%d  %d \n" % (n, cols) if kind == "header" else "%d %d\n" % (n, cols)]
        data = [data[0].encode()]
        for i, w in enumerate(ws):
            data += [w.encode("utf-8"), b" ", E.le_bytes(m[i:i + 1]), b"" if kind == "plain" else b"\n"]
        E.write_bytes(p, *data)
        return c17.compare(E, ws, plain, C.load_word2vec(p), "word2vec file", True)
    num = lambda i, j: ("%d.5", "-%d", "%d25e-2", "+%d.125")[(i + j) % 4 if kind == "numbers" else 0] % (i + 2 * j + 1)
    plain = [[float(num(i, j)) for j in range(cols)] for i in range(n)]
    sep = {"tabs": "\t", "spaces": "  "}.get(kind, " ")
    nl = (" \t" if kind == "trailing" else "") + ("\r\n" if kind == "crlf" else "\n")
    t = "".join(w + sep + sep.join(num(i, j) for j in range(cols)) + nl for i, w in enumerate(ws))
    if fmt == "textdims":
        t = "%d%s%d%s" % (n, sep, cols, nl) + t
    if kind == "open":
        t = t[:-1]
    E.write_bytes(p, t.encode("utf-8"))
    if kind == "locale":
        E.c_locale()
    f = C.load_text if fmt == "text" else C.load_text_dims
    c17.compare(E, ws, plain, f(p), "%s file" % fmt)
