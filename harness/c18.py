"""C18: text and text-dims round trip."""
from . import emb, c17

WITNESSES = ("norms", "no-norms", "subwords", "quantized", "nonascii", "refused", "sep", "locale")


def cases(tier):
    out = []
    for c in c17.specs(tier):
        for fmt in ("text", "textdims"):
            out.append(dict(c, name=fmt + "-" + c["name"], fmt=fmt))
    for fmt in ("text", "textdims"):
        out.append(dict(name=fmt + "-sep", fmt=fmt, lens=(1, 1), norms=True, vkind="simple", skind="array", cols=2, sep="\t"))
        # the files are UTF-8 whatever the locale is
        for lens in ((1, ), (2, 1)):
            out.append(dict(name="%s-locale-%s" % (fmt, lens), fmt=fmt, lens=lens, norms=False, vkind="simple", skind="array", cols=1, locale=True))
        for n, cols in ((1, 2), (2, 1)):
            out.append(dict(name="%s-digits-%dx%d" % (fmt, n, cols), fmt=fmt, mode="digits", n=n, cols=cols, vkind="simple", skind="array",
                            norms=False))
        # files with a line that has another number of components
        for cols in (1, 2, 3):
            for n in (1, 2, 3):
                for bad in range(n):
                    for k in range(0, cols + 3):
                        if k == cols or (fmt == "text" and n == 1):
                            continue
                        if tier == "quick" and (n == 3) != (cols == 2):
                            continue
                        out.append(dict(name="%s-wrong-%dx%d-%d:%d" % (fmt, n, cols, bad, k), fmt=fmt, mode="wrong", n=n,
                                        cols=cols, bad=bad, k=k))
    return out


def functions(E, fmt):
    C = E.mod("finalfusion.compat")
    return (C.write_text, C.load_text) if fmt == "text" else (C.write_text_dims, C.load_text_dims)


def run(E, case):
    write, load = functions(E, case["fmt"])
    p = E.path("e.txt")
    if case.get("mode") == "digits":
        # the written numbers are those of the matrix, to the last bit
        from . import c29
        return c29.run_write(E, case)
    if case.get("mode") == "wrong":
        n, cols = case["n"], case["cols"]
        parts = []
        if case["fmt"] == "textdims":
            parts.append("%d %d\n" % (n, cols))
        for i in range(n):
            k = case["k"] if i == case["bad"] else cols
            parts.append(E.word("w%d" % i, 1, c17.ASCII_WS))
            for j in range(k):
                parts.append(" %d.%d" % (i + 1, j))
            parts.append("\n")
        E.write_bytes(p, *[E.utf8(x) for x in parts])
        for lossy in (False, True):
            r = E.attempt(load, p, lossy)
            E.check(r.exc is not None, "a line with another number of components is refused")
        E.note("refused")
        return
    if case.get("locale"):
        E.c_locale()
        E.note("locale")
    e = c17.build(E, case)
    before = E.np.array(e.matrix) if e.skind == "array" else None
    if case.get("sep"):
        write(p, e.emb, case["sep"])
        E.note("sep")
    else:
        write(p, e.emb)
    if before is not None:
        E.check(E.eq(E.np.asarray(e.storage), before), "the storage is not modified by writing")
    for lossy in (False, True):
        c17.verify(E, e, load(p, lossy), "lossy" if lossy else "strict")
    for w in e.words:
        if len(w) and E.truth(E.Or(*[c > 127 for c in E.cps(w)])):
            E.note("nonascii")
