"""C22: cut-off word2vec, fastText and text-dims files."""
from . import emb, c17

WITNESSES = ("word2vec-raised", "fasttext-raised", "textdims-raised")


def cases(tier):
    out = []
    full = 0x10ffff
    # word lengths, dimensions, largest code point
    for lens, cols, cp in [((1, ), 1, full), ((1, ), 2, full), ((0, 1), 1, full), ((0, 1), 2, full), ((2, ), 1, full),
                           ((1, 1), 2, 0x7ff), ((1, 2), 1, 0x7ff), ((1, 1, 1), 1, 0x7f), ((1, 0, 1), 2, 0x7ff)] + (
                               [] if tier == "quick" else [((3, ), 2, full), ((1, 1), 1, full), ((2, 1), 2, full),
                                                           ((1, 1, 1), 2, 0x7ff), ((0, 2, 1), 3, 0xffff)]):
        for norms in (False, True) if cols == 1 and len(lens) == 1 or tier != "quick" else (len(lens) == 2, ):
            base = dict(lens=lens, cols=cols, norms=norms, skind="array", maxcp=cp)
            nm = "%s-%d-%x%s" % ("".join(map(str, lens)), cols, cp, "-norms" * norms)
            out.append(dict(base, name="word2vec-" + nm, fmt="word2vec", vkind="simple", weight=sum(lens)))
            out.append(dict(base, name="textdims-" + nm, fmt="textdims", vkind="simple", weight=sum(lens) + 1))
    for words, lo, hi, b in ((("ab", ), 3, 3, 2), (("ab", "c"), 3, 4, 1), (("tü", "", "x"), 2, 3, 2), (("a", "bc"), 5, 6, 3)):
        for cols in (1, 2):
            out.append(dict(name="fasttext-%s-%d" % ("_".join(words), cols), fmt="fasttext", words=words, lo=lo, hi=hi, b=b,
                            cols=cols, norms=False, skind="array"))
    return out


def run(E, case):
    C = E.mod("finalfusion.compat")
    fmt = case["fmt"]
    p, q = E.path("e"), E.path("cut")
    if fmt == "fasttext":
        e = emb.build(E, "fasttext", case["words"], "array", case["cols"], case["norms"], case["lo"], case["hi"], case["b"])
        C.write_fasttext(p, e.emb)
        # signature, settings, sizes; per word: text, NUL, count, type; matrix
        end = 8 + 56 + 12 + 16 + sum(len(w.encode("utf-8")) + 1 + 9 for w in case["words"]) + 17 + 4 * case["cols"] * e.ub
        load = C.load_fasttext
    else:
        e = c17.build(E, case, c17.ASCII_WS)
        if fmt == "word2vec":
            C.write_word2vec(p, e.emb)
            end = E.file_size(p) - 1
            load = C.load_word2vec
        else:
            C.write_text_dims(p, e.emb)
            end = E.file_size(p) - last_line(E, p, e)
            load = C.load_text_dims
    cut = E.int("cut", 0, soft=200)
    E.assume(cut < end)
    E.truncated(p, q, cut)
    for lossy in (False, True):
        r = E.attempt(load, q, lossy)
        E.check(r.exc is not None, "a cut-off %s file is rejected" % fmt)
    E.note(fmt + "-raised")


def last_line(E, p, e):
    """length of the last line"""
    with E.open(p, "rb") as f:
        lines = list(f)
    return E.length(lines[-1])
