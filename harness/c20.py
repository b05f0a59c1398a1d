"""C20: construction invariants."""
from . import fifu

WITNESSES = ("built", "refused-rows", "refused-norms", "refused-type", "set-norms", "kept-norms", "set-meta", "kept-meta",
             "array-ok", "array-refused", "norms-ok", "norms-refused", "file-ok", "file-refused")
VOCABS = ("simple", "bucket", "fasttext", "explicit")
STORES = ("array", "quant", "quant+proj+norms")
DTYPES = ("<f4", ">f4", "<f8", "<f2", "<i4", "<u1", "<u4", "<i8")


def cases(tier):
    out = []
    for v in VOCABS:
        for s in STORES:
            for n in (0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 4, 6):
                for norms in (False, True):
                    out.append(dict(name="rows-%s%d-%s%s" % (v, n, s, "-norms" * norms), mode="rows", vocab=v, storage=s, n=n,
                                    norms=norms))
                    if n == 3 and not norms and tier == "quick":
                        continue
                    out.append(dict(name="file-%s%d-%s%s" % (v, n, s, "-norms" * norms), mode="file", vocab=v, storage=s, n=n,
                                    norms=norms))
    for bad in ("storage-array", "storage-none", "storage-norms", "storage-list", "vocab-list", "vocab-none", "vocab-indexer",
                "norms-array", "norms-list", "norms-storage", "meta-dict", "meta-str", "meta-list"):
        for v, s in (("simple", "array"), ("bucket", "quant")):
            out.append(dict(name="type-%s-%s" % (bad, v), mode="type", bad=bad, vocab=v, storage=s, n=2))
    for v, s in (("simple", "array"), ("fasttext", "quant")):
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for start in (False, True):
                out.append(dict(name="set%d-%s-%d" % (k, v, start), mode="set", k=k, vocab=v, storage=s, n=2, norms=start,
                                meta=start, weight=k * k * k))
    for dt in DTYPES:
        for nd in range(0, 5):
            out.append(dict(name="arr-%s-%d" % (dt, nd), mode="arr", dt=dt, nd=nd))
    return out


def parts(E, case):
    P = fifu.Parts()
    P.norms = P.metadata = None
    fifu.vocab(E, P, case["vocab"], case["n"])
    return P


def shape(case):
    return 3 if case["storage"] == "array" else (2, 2, 1)


def run(E, case):
    mode = case["mode"]
    Em = E.mod("finalfusion.embeddings").Embeddings
    if mode == "arr":
        return arrays(E, case)
    P = parts(E, case)
    if mode in ("rows", "file"):
        rows = E.int("rows", 0, 2**50, soft=20)
        fifu.storage(E, P, case["storage"], shape(case), rows=rows)
        k = case["n"]
        if case["norms"]:
            k = E.int("n_norms", 0, 2**50, soft=9)
            fifu.norms(E, P, k)
            P.k = k
        fits_rows, fits_norms = E.eq(rows, P.ub), E.eq(k, case["n"])
        if mode == "file":
            return from_file(E, P, case, E.And(fits_rows, fits_norms), k)
        r = E.attempt(Em, P.storage, P.vocab, P.norms)
        if r.exc is None:
            E.note("built")
            E.check(E.And(fits_rows, fits_norms), "parts that do not fit are refused")
            E.check(r.value.storage is P.storage and r.value.vocab is P.vocab and r.value.norms is P.norms, "the parts are used")
        else:
            E.check(E.Not(E.And(fits_rows, fits_norms)), "parts that fit are accepted")
            E.note("refused-rows" if not E.truth(fits_rows) else "refused-norms")
        return
    fifu.storage(E, P, case["storage"], shape(case))
    if mode == "type":
        return types(E, P, case, Em)
    sets(E, P, case, Em)


def types(E, P, case, Em):
    fifu.norms(E, P, P.n)
    fifu.metadata(E, P)
    V = E.mod("finalfusion.vocab")
    a = dict(storage=P.storage, vocab=P.vocab, norms=P.norms, metadata=P.metadata)
    Em(**a)
    bad = case["bad"]
    what, how = bad.split("-")
    if what == "storage":
        a["storage"] = {"array": lambda: E.oarray("raw", (P.ub, 3)), "none": lambda: None, "norms": lambda: P.norms,
                        "list": lambda: [[1.0]] * 2}[how]()
    elif what == "vocab":
        a["vocab"] = {"list": lambda: list(P.words), "none": lambda: None,
                      "indexer": lambda: E.mod("finalfusion.subword").FinalfusionHashIndexer(2)}[how]()
    elif what == "norms":
        a["norms"] = {"array": lambda: E.oarray("raw", (P.n, )), "list": lambda: [1.0] * P.n, "storage": lambda: P.storage}[how]()
    else:
        a["metadata"] = {"dict": lambda: {"a": 1}, "str": lambda: "a = 1", "list": lambda: []}[how]()
    E.check(E.attempt(Em, **a).exc is not None, "%s of another type is refused" % what)
    for part in ("norms", "metadata"):
        a = dict(storage=P.storage, vocab=P.vocab, norms=P.norms, metadata=P.metadata)
        a[part] = None
        e = Em(**a)
        E.check(getattr(e, part) is None, "%s are optional" % part)
    E.note("refused-type")


def sets(E, P, case, Em):
    if case["norms"]:
        fifu.norms(E, P, P.n)
    if case["meta"]:
        fifu.metadata(E, P)
    e = Em(P.storage, P.vocab, P.norms, P.metadata)
    norms, meta = P.norms, P.metadata
    N, M = E.mod("finalfusion.norms").Norms, E.mod("finalfusion.metadata").Metadata
    for i in range(case["k"]):
        op = E.choice("op%d" % i, list(range(7)))
        ok = True
        if op == 0:
            attr, val = "norms", None
        elif op == 1:
            k = E.int("len%d" % i, 0, 2**40, soft=9)
            attr, val = "norms", N(E.oarray("x%d" % i, (k, )))
            ok = E.truth(E.eq(k, P.n))
        elif op == 2:
            attr, val, ok = "norms", E.oarray("x%d" % i, (P.n, )), False
        elif op == 3:
            attr, val, ok = "norms", [1.0] * P.n, False
        elif op == 4:
            attr, val = "metadata", None
        elif op == 5:
            attr, val = "metadata", M({"step": i})
        else:
            attr, val, ok = "metadata", {"step": i}, False
        r = E.attempt(setattr, e, attr, val)
        E.check((r.exc is None) == ok, "assignment of %s is accepted exactly if it fits" % attr)
        if attr == "norms":
            norms = val if ok else norms
            E.note("set-norms" if ok else "kept-norms")
        else:
            meta = val if ok else meta
            E.note("set-meta" if ok else "kept-meta")
        E.check(e.norms is norms, "norms after the assignment")
        E.check(e.metadata is meta, "metadata after the assignment")
        E.check(e.storage is P.storage and e.vocab is P.vocab, "storage and vocabulary are not touched")
    ids = [type(c).__name__ for c in e.chunks()]
    E.check(("Norms" in ids) == (norms is not None) and ("Metadata" in ids) == (meta is not None), "chunks follow the state")


def arrays(E, case):
    nd = case["nd"]
    sh = tuple(E.int("d%d" % i, 0, 2**20, soft=3) for i in range(nd))
    a = E.oarray("a", sh, case["dt"])
    f32 = case["dt"] in ("<f4", ">f4")
    for name, cls, want in (("array", E.mod("finalfusion.storage").NdArray, 2), ("norms", E.mod("finalfusion.norms").Norms, 1)):
        r = E.attempt(cls, a)
        ok = f32 and nd == want
        E.check((r.exc is None) == ok, "%s accepts exactly float32 arrays with %d dimensions" % (name, want))
        E.note(name + ("-ok" if ok else "-refused"))
        if ok:
            E.check(E.eq(E.np.asarray(r.value), a), name + ": the elements are kept")


def from_file(E, P, case, fits, k):
    p = E.path("e.fifu")
    ids = fifu.chunk_ids(P)
    data = fifu.file_header(E, ids)
    data = E.cat(data, fifu.chunk(E, *fifu.vocab_body(E, P)))
    data = E.cat(data, fifu.chunk(E, *fifu.storage_body(E, P, E.length(data) + 12)))
    if P.norms is not None:
        n, P.n = P.n, k
        data = E.cat(data, fifu.chunk(E, *fifu.norms_body(E, P, E.length(data) + 12)))
        P.n = n
    E.write_bytes(p, data)
    for mm in (False, True):
        r = E.attempt(E.mod("finalfusion").load_finalfusion, p, mmap=mm)
        if r.exc is None:
            E.check(fits, "files with parts that do not fit are refused")
            E.note("file-ok")
        else:
            E.check(E.Not(fits), "files with parts that fit are accepted")
            E.note("file-refused")
