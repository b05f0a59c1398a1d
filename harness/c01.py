"""C01: finalfusion files round-trip every component."""
from . import fifu

WITNESSES = ("roundtrip", "eager", "mapped", "parts", "slice")


def configs(tier):
    out = []
    A, Q = "array", "quant"
    out += [dict(vocab="simple", n=n, storage=A, norms=nm, meta=mt, bo=bo)
            for n, nm, mt, bo in ((0, True, False, "<"), (1, False, False, "<"), (2, True, True, "<"), (3, True, False, ">"),
                                  (2, False, True, ">"))]
    for v in ("bucket", "fasttext"):
        out += [dict(vocab=v, n=2, storage=A, norms=True, meta=True, bo="<"), dict(vocab=v, n=0, storage=A, bo=">"),
                dict(vocab=v, n=1, storage=Q + "+proj+norms", norms=True, bo="<"),
                dict(vocab=v, n=2, storage=Q, meta=True, bo=">")]
    for ix in (((0, 1), 2), ((1, 0), 2), ((0, 0), 1), ((), 0)):
        out += [dict(vocab="explicit", n=1, storage=A, norms=True, explicit=ix)]
    out += [dict(vocab="explicit", n=2, storage=Q + "+norms", meta=True, bo=">", explicit=((1, 0), 2))]
    for sk in (Q, Q + "+proj", Q + "+norms", Q + "+proj+norms"):
        for bo in "<>":
            out.append(dict(vocab="simple", n=2, storage=sk, norms=bo == "<", bo=bo))
    out += [dict(vocab="simple", n=1, storage=Q, shape=(1, 1, 1)), dict(vocab="simple", n=2, storage=Q + "+norms", shape=(3, 2, 1))]
    # an odd number of codes with something behind it
    out += [dict(vocab=v, n=1, storage=Q + x, shape=(3, 2, 1), norms=True) for v in ("simple", "bucket", "fasttext")
            for x in ("", "+norms")]
    out += [dict(vocab="simple", n=1, storage=A, meta="empty", norms=True), dict(vocab="fasttext", n=1, storage=Q, meta="empty")]
    out += [dict(vocab=v, n=260, storage=A, norms=True, meta=True) for v in ("simple", "fasttext")]
    out += [dict(vocab="explicit", n=30, storage=Q, norms=True, explicit=(tuple(range(299, -1, -1)), 300))]
    # arrays that are views into other arrays
    for lay in ("F", "rows", "cols", "rev"):
        for bo in "<>":
            out += [dict(vocab="simple", n=3, storage=A, shape=2, norms=True, layout=lay, bo=bo),
                    dict(vocab="simple", n=2, storage=Q + "+proj+norms", shape=(2, 2, 1), layout=lay, bo=bo)]
    if tier != "quick":
        for n in (4, 6):
            out += [dict(vocab=v, n=n, storage=s, norms=True, meta=True, bo=bo) for v in ("simple", "bucket", "fasttext")
                    for s in (A, Q + "+proj+norms") for bo in "<>"]
        for cols in (1, 2, 300):
            out += [dict(vocab="bucket", n=2, storage=A, shape=cols, norms=True)]
        for ix in (((0, 1, 2), 3), ((2, 0, 1, 0), 3), ((1, 1, 0), 2)):
            for n in (0, 3):
                out += [dict(vocab="explicit", n=n, storage=A, norms=True, meta=True, explicit=ix)]
        for sh in ((1, 256, 1), (4, 2, 3), (5, 256, 4)):
            out += [dict(vocab="fasttext", n=2, storage=Q + "+proj+norms", shape=sh, norms=True, bo=">")]
    return out


def cases(tier):
    out = [dict(c, name=fifu.cfg_name(c), weight=c["n"]) for c in configs(tier)]
    for c in list(out):
        if c["n"] == 2 and not c.get("layout") and (c.get("meta") or c.get("norms")):
            if c["vocab"] == "fasttext" and c["storage"] == "array" and tier == "quick":
                continue
            for via in ("eager", "mapped", "parts", "over"):
                out.append(dict(c, name=c["name"] + "-" + via, via=via))
    # some of the rows of a loaded file
    for st, sh in (("array", 2), ("quant+proj+norms", (2, 2, 1)), ("quant", (2, 2, 1))):
        for mm in (False, True):
            for k in range(len(SLICES)):
                c = dict(vocab="simple", n=3, storage=st, shape=sh, norms=k != 1, layout="rev", bo="<" if k else ">")
                out.append(dict(c, name="slice%d-%s%s" % (k, fifu.cfg_name(c), "-mmap" * mm), via="slice", slice=k, mmap=mm))
    out += [dict(name="metadata-" + k, via="metadata", n=1) for k in METADATA]
    return out


# fixed metadata: the text comes from the toml package, which is not encoded; nbsp, control and backslash are known findings
METADATA = {
    "quotes": {"a": "x\"y'z", "b": "\\ \\\\", "c d": "#=[]{}", "\u00fc.x": "\U0001f600"},
    "lines": {"a": "one\ntwo\r\n\tthree", "empty": "", "long": "x" * 5000},
    "numbers": {"a": -1, "b": 0.25, "c": 1e-30, "d": True, "e": False, "f": 2**62, "g": float("inf")},
    "lists": {"a": [1, 2], "b": ["x", "y"], "c": [], "d": [[1], [2, 3]]},
    "nested": {"a": {"b": {"c": {"d": 1}}, "e": 2}, "z": {}},
    "nbsp": {"a": "x\u00a0y"},
    "control": {"a": "\x1c"},
    "backslash": {"a": "C:\\xyz"},
}


def run_metadata(E, case):
    M = E.mod("finalfusion.metadata")
    d = METADATA[case["name"].split("-", 1)[1]]
    m = M.Metadata(d)
    p = E.path("e.fifu")
    e = E.mod("finalfusion.embeddings").Embeddings(
        E.mod("finalfusion.storage").NdArray(E.np.array([[1.0, 2.0]], dtype=E.np.float32)),
        E.mod("finalfusion.vocab").SimpleVocab(["w"]), metadata=m)
    e.write(p)
    got = E.mod("finalfusion").load_finalfusion(p)
    E.check(got.metadata == d, "fixed metadata")
    E.check(M.load_metadata(p) == d, "fixed metadata on its own")
    E.check(got.vocab.words == ["w"], "words behind the metadata")
    m.write(p)
    E.check(M.load_metadata(p) == d, "metadata file")
    E.note("metadata")


SLICES = (slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(0, 2), slice(-1, None))


def run(E, case):
    if case.get("via") == "metadata":
        return run_metadata(E, case)
    P = fifu.build(E, case)
    p = E.path("e.fifu")
    via = case.get("via")
    F = E.mod("finalfusion")
    if via == "over":
        # what the file held before is of no consequence
        E.write_bytes(p, E.zeros(E.small(E.int("before", 0, 2**20))))
    P.emb.write(p)
    E.note("roundtrip")
    e = F.load_finalfusion(p)
    fifu.check_all(E, P, e, "load")
    fifu.check_all(E, P, P.emb, "written embeddings")
    if via is None or via == "over":
        return
    E.note(via)
    if via == "slice":
        sl = SLICES[case["slice"]]
        e = F.load_finalfusion(p, mmap=case["mmap"])
        words = list(e.vocab.words)[sl]
        part = E.mod("finalfusion.embeddings").Embeddings(
            e.storage[sl], E.mod("finalfusion.vocab").SimpleVocab(words), None if P.norms is None else e.norms[sl])
        p2 = E.path("f.fifu")
        part.write(p2)
        P.words, P.rows, P.n, P.ub = P.words[sl], len(words), len(words), len(words)
        if P.skind == "array":
            P.matrix = P.matrix[sl]
        else:
            P.codes = P.codes[sl]
            P.qnorms = None if P.qnorms is None else P.qnorms[sl]
        if P.norms is not None:
            P.narray = P.narray[sl]
        fifu.check_all(E, P, F.load_finalfusion(p2), "part of a file")
        fifu.check_all(E, P, F.load_finalfusion(p2, mmap=True), "part of a file, mapped")
        return
    # written again from what was loaded
    if via == "mapped":
        if case["storage"] == "array":
            E.assume(P.rows > 0)
        e = F.load_finalfusion(p, mmap=True)
    elif via == "parts":
        e = E.mod("finalfusion.embeddings").Embeddings(
            E.mod("finalfusion.storage").load_storage(p), E.mod("finalfusion.vocab").load_vocab(p),
            E.mod("finalfusion.norms").load_norms(p) if P.norms is not None else None)
        if P.metadata is not None:
            e.metadata = E.mod("finalfusion.metadata").load_metadata(p)
    p2 = E.path("f.fifu")
    e.write(p2)
    fifu.check_all(E, P, F.load_finalfusion(p2), "second load")
    fifu.check_all(E, P, F.load_finalfusion(p), "first file")
    # without the optional parts
    e = F.load_finalfusion(p2)
    e.norms = None
    e.metadata = None
    e.write(p)
    P.norms = P.metadata = None
    fifu.check_all(E, P, F.load_finalfusion(p), "without norms and metadata")
