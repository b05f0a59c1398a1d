"""C03: chunk lengths, stand-alone loaders."""
from . import fifu, c01

WITNESSES = ("framed", "found", "missing")


def cases(tier):
    out = [dict(c, name=fifu.cfg_name(c), kind="file", weight=c["n"]) for c in c01.configs(tier)]
    for k in ("simple", "bucket", "fasttext", "explicit", "array", "quant+proj+norms", "norms", "meta"):
        out.append(dict(name="behind-" + k, kind="behind", chunk=k))
    return out


def loaders(E):
    v, s = E.mod("finalfusion.vocab"), E.mod("finalfusion.storage")
    return dict(simple=v.load_simple_vocab, bucket=v.load_finalfusion_bucket_vocab, fasttext=v.load_fasttext_vocab,
                explicit=v.load_explicit_vocab, vocab=v.load_vocab, storage=s.load_storage, array=s.load_ndarray,
                quant=s.load_quantized_array, norms=E.mod("finalfusion.norms").load_norms,
                meta=E.mod("finalfusion.metadata").load_metadata)


def components(E, P, p, have):
    """every single-component loader on file p that holds ``have``"""
    for name, f in loaders(E).items():
        r = E.attempt(f, p)
        if name not in have:
            E.note("missing")
            E.check(isinstance(r.exc, ValueError), "load of %s: ValueError when the file has none" % name)
            continue
        E.note("found")
        E.check(r.exc is None, "load of %s succeeds" % name)
        if name in ("simple", "bucket", "fasttext", "explicit", "vocab"):
            fifu.check_vocab(E, P, r.value, "load of " + name)
        elif name in ("storage", "array", "quant"):
            fifu.check_storage(E, P, r.value, "load of " + name)
        elif name == "norms":
            fifu.check_norms(E, P, r.value, "load of norms")
        else:
            fifu.check_meta(E, P, r.value, "load of metadata")


def frames(E, p, ids):
    """walk the chunks by their recorded lengths"""
    E.note("framed")
    size = E.file_size(p)
    pos = 12 + 4 * len(ids)
    with E.open(p, "rb") as f:
        for cid in ids:
            f.seek(pos)
            got, n = E.unpack("<IQ", f.read(12))
            E.check(E.eq(got, cid), "chunk identifier where the previous chunk ends")
            pos = pos + 12 + n
    E.check(E.eq(pos, size), "last chunk ends at the end of the file")


def run(E, case):
    if case["kind"] == "behind":
        return behind(E, case)
    P = fifu.build(E, case)
    p = E.path("e.fifu")
    P.emb.write(p)
    frames(E, p, fifu.chunk_ids(P))
    have = {P.vkind, "vocab", "storage", "array" if P.skind == "array" else "quant"}
    if P.norms is not None:
        have.add("norms")
    if P.metadata is not None:
        have.add("meta")
    components(E, P, p, have)


def behind(E, case):
    """a component on its own behind a foreign chunk of any length"""
    P = fifu.Parts()
    P.norms = P.metadata = None
    k = case["chunk"]
    first = E.choice("first", [fifu.META, fifu.SIMPLE, fifu.NDARRAY])
    skip = E.int("skip", 0, 2**40)
    E.small(skip)
    if k in ("simple", "bucket", "fasttext", "explicit"):
        E.assume(first != fifu.SIMPLE)
        fifu.vocab(E, P, k, 2)
        cid, body = fifu.vocab_body(E, P)
        have = {k, "vocab"}
    elif k == "norms":
        P.n = E.int("n_norms", 0, 2**40)
        fifu.norms(E, P, P.n)
        cid, body = fifu.norms_body(E, P, 20 + 12 + skip + 12)
        have = {"norms"}
    elif k == "meta":
        E.assume(first != fifu.META)
        fifu.metadata(E, P)
        cid, body = fifu.META, E.toml_bytes(P.mdict)
        have = {"meta"}
    else:
        E.assume(first != fifu.NDARRAY)
        fifu.storage(E, P, k, 3 if k == "array" else (2, 3, 2), rows=E.int("rows", 0, 2**40))
        cid, body = fifu.storage_body(E, P, 20 + 12 + skip + 12)
        have = {"storage", "array" if k == "array" else "quant"}
    p = E.path("c")
    E.write_bytes(p, fifu.file_header(E, [first, cid]), E.pack("<IQ", first, skip), E.zeros(skip),
                  E.pack("<IQ", cid, E.length(body)), body)
    L = loaders(E)
    E.note("found")
    for h in sorted(have):
        r = E.attempt(L[h], p)
        E.check(r.exc is None, "load of %s succeeds" % h)
        if h == "norms":
            fifu.check_norms(E, P, r.value, "load of norms")
        elif h == "meta":
            fifu.check_meta(E, P, r.value, "load of metadata")
        elif h in ("storage", "array", "quant"):
            fifu.check_storage(E, P, r.value, "load of " + h)
        else:
            fifu.check_vocab(E, P, r.value, "load of " + h)
    # a loader of a kind the file does not have
    for h in ("norms", "explicit", "quant", "fasttext"):
        if h not in have:
            E.note("missing")
            E.check(isinstance(E.attempt(L[h], p).exc, ValueError), "load of %s: ValueError when the file has none" % h)
