"""C21: ffp-select."""
from . import emb, c15, c17

WITNESSES = ("selected", "exit", "kept", "left-out", "duplicate", "oov", "nothing", "symbolic", "metadata")
WORDS = ["ab", "cde", "f g", "ü"]


def cases(tier):
    out = []
    lists = {"one": ["cde"], "all": ["ü", "ab", "f g", "cde"], "dup": ["ab", "cde", "ab"], "space": ["  ab ", "f g\t", "ab"],
             "unk": ["ab", "zzz", "cde"], "unkfirst": ["zzz", "ab"], "unklast": ["f g", "zzz"], "unkonly": ["zzz"],
             "unkdup": ["zzz", "ab", "zzz", "ab"], "two-unk": ["q", "zzz", "ü"], "empty": [],
             "no-end": ["ab", "cde", None], "crlf": ["ab\r", "cde\r"]}
    for name, l in lists.items():
        for kind in ("simple", "bucket", "fasttext", "explicit"):
            for ign in (False, True):
                out.append(dict(name="%s-%s%s" % (name, kind, "-i" * ign), list=tuple(l), kind=kind, ign=ign, skind="array",
                                fmt="finalfusion"))
    for sk in ("quant", "quant+norms", "quant+proj"):
        for mm in (False, True):
            out.append(dict(name="%s%s" % (sk, "-mmap" * mm), list=("ab", "zzz", "ü"), kind="bucket", ign=False, skind=sk,
                            fmt="finalfusion", mmap=mm))
    for fmt in ("word2vec", "text", "textdims", "fasttext"):
        for name in ("dup", "unk", "all"):
            for ign in (False, True):
                out.append(dict(name="%s-%s%s" % (fmt, name, "-i" * ign), list=tuple(x.replace(" ", "_") for x in lists[name]),
                                kind="fasttext" if fmt == "fasttext" else "simple", ign=ign, skind="array", fmt=fmt))
    for k in (1, 2):
        for ign in (False, True):
            out.append(dict(name="sym%d%s" % (k, "-i" * ign), mode="sym", k=k, ign=ign, kind="simple", skind="array",
                            fmt="finalfusion", weight=k))
            out.append(dict(name="inner%d%s" % (k, "-i" * ign), mode="sym", k=k, ign=ign, kind="simple", skind="array",
                            fmt="finalfusion", inner=True, weight=k))
    for name in ("unk", "all"):
        for kind in ("simple", "bucket"):
            for ign in (False, True):
                out.append(dict(name="stdin-%s-%s%s" % (name, kind, "-i" * ign), list=tuple(lists[name]), kind=kind, ign=ign,
                                skind="array", fmt="finalfusion", stdin=True, existing=ign == (kind == "simple")))
    for ign in (False, True):
        out.append(dict(name="existing%s" % ("-i" * ign), list=("ab", "zzz"), kind="simple", ign=ign, skind="array",
                        fmt="finalfusion", existing=True))
    for kind in ("simple", "bucket"):
        out.append(dict(name="metadata-" + kind, list=("ab", "cde"), kind=kind, ign=False, skind="array", fmt="finalfusion", meta=True))
    for flags in (("-l", ), ("-v", ), ("-l", "-v", "-i")):
        out.append(dict(name="flags" + "".join(flags), list=("ab", "zzz", "cde"), kind="simple", ign=False, skind="array",
                        fmt="finalfusion", flags=flags))
    return out


def run(E, case):
    fmt, kind = case["fmt"], case["kind"]
    sym = case.get("mode") == "sym"
    words = [w.replace(" ", "_") if fmt != "finalfusion" else w for w in WORDS]
    if sym:
        words = [] if case.get("inner") else [E.word("w%d" % i, 1, c17.ASCII_WS + ((0x1c, 0x1f), 0x85, 0xa0, 0x1680, (0x2000, 0x200a), 0x2028, 0x2029, 0x202f,
                                                     0x205f, 0x3000)) for i in range(2)]
        if words:
            E.assume(E.Not(E.eq(words[0], words[1])))
        if case.get("inner"):
            # any character but line ends within a word
            words = ["x" + E.word("w%d" % i, i + 1, (0x0a, 0x0d)) + "y" for i in range(2)]
    e = emb.build(E, kind, words, case["skind"], 1 if fmt != "finalfusion" or kind != "simple" else 2,
                  False, 3, 4, 3 if kind == "fasttext" else 1, grams=["<zz", "zzz"], codes=(0, 1, 1, 1, 0, 0, 1))
    p, w, o = E.path("in"), E.path("words.txt"), E.path("out.fifu")
    if case.get("meta"):
        e.emb.metadata = E.mod("finalfusion.metadata").Metadata({"a": "b", "n": {"c": 3, "d": ["x"]}})
    e.emb.write(p) if fmt == "finalfusion" else write_as(E, fmt, p, e)
    ref = load_as(E, fmt, p, bool(case.get("mmap")))
    if sym:
        E.note("symbolic")
        asked = [] if case.get("inner") else [E.word("q%d" % i, 1, c17.ASCII_WS + ((0x1c, 0x1f), 0x85, 0xa0, 0x1680, (0x2000, 0x200a), 0x2028, 0x2029, 0x202f,
                                                     0x205f, 0x3000)) for i in range(case["k"])]
        if case.get("inner"):
            asked = [words[i] for i in range(case["k"])]
        E.write_bytes(w, *[x for q in asked for x in (E.utf8(q), b"\n")])
    else:
        l = case["list"]
        text = "".join(x + "\n" for x in l if x is not None)
        if None in l:
            text = text[:-1]
        E.write_bytes(w, E.utf8(text))
        asked = [x.strip() for x in l if x is not None]
    argv = [p, o] if case.get("stdin") else [p, o, w]
    if case.get("existing"):
        E.write_bytes(o, b"something else")
    if fmt != "finalfusion":
        argv += ["-f", fmt]
    if case["ign"]:
        argv += ["--ignore_unk"]
    if case.get("mmap"):
        argv += ["--mmap"]
    argv += list(case.get("flags", ()))
    ignore = case["ign"] or "-i" in argv
    wanted, unknown = [], False
    for q in asked:
        if any(E.truth(E.eq(q, x)) for x, _ in wanted):
            E.note("duplicate")
            continue
        r = E.attempt(lambda: ref[q])
        if r.exc is not None:
            E.check(isinstance(r.exc, KeyError), "unknown words are KeyErrors")
            unknown = True
        else:
            wanted.append((q, r.value))
            if not sym and q not in words:
                E.note("oov")
    r = E.script("finalfusion.scripts.select", argv, **(dict(stdin=text) if case.get("stdin") else {}))
    if unknown and not ignore:
        E.note("exit")
        E.check(r.exc is None and r.code == 1, "status 1 for words that cannot be represented")
        if case.get("existing"):
            E.note("kept")
            E.check(E.eq(E.read_bytes(o), b"something else"), "an existing file is left alone")
        else:
            E.check(not E.exists(o), "nothing is written")
        return
    if unknown:
        E.note("left-out")
    if not wanted:
        E.note("nothing")
    E.check(r.exc is None and r.code == 0, "ffp-select succeeds")
    got = E.mod("finalfusion").load_finalfusion(o)
    E.note("selected")
    E.check(got.metadata is not None and E.eq(got.metadata["source_embeddings"], p), "the metadata names the input")
    E.check(("source_metadata" in got.metadata) == (ref.metadata is not None), "the metadata of the input is kept")
    if ref.metadata is not None:
        E.note("metadata")
        E.check(E.eq(dict(got.metadata["source_metadata"]), dict(ref.metadata)), "the metadata of the input")
    E.check(len(got.vocab.words) == len(wanted) and len(got.vocab) == len(wanted), "exactly the requested words")
    E.check(got.storage.shape[0] == len(wanted), "one row per requested word")
    for q, v in wanted:
        E.check(E.truth(q in got.vocab), "every requested word is there")
        x = got[q]
        E.check(x.shape[0] == v.shape[0], "dimensionality")
        for j in range(v.shape[0]):
            E.check(E.tight(x[j], v[j], v, 1e-6), "the embedding of the input")


def write_as(E, fmt, p, e):
    C = E.mod("finalfusion.compat")
    for i in range(e.n):
        E.assume(emb.total([x * x for x in e.rows[i]]) > (0 if E.symbolic else 1e-3))
    {"word2vec": C.write_word2vec, "text": C.write_text, "textdims": C.write_text_dims, "fasttext": C.write_fasttext}[fmt](p, e.emb)


def load_as(E, fmt, p, mmap=False):
    C = E.mod("finalfusion.compat")
    if fmt == "finalfusion":
        return E.mod("finalfusion").load_finalfusion(p, mmap)
    return {"word2vec": C.load_word2vec, "text": C.load_text, "textdims": C.load_text_dims, "fasttext": C.load_fasttext}[fmt](p)
