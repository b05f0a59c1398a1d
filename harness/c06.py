"""C06: wrong signature, element type or chunk order is rejected."""
from . import fifu, c03

WITNESSES = ("rejected-magic", "rejected-version", "rejected-id", "rejected-type", "rejected-order", "accepted-order")
KINDS = ("meta", "vocab", "storage", "norms")


def cases(tier):
    out = []
    for kind in ("magic", "version"):
        for v, s in (("simple", "array"), ("bucket", "quant+norms"), ("fasttext", "array"), ("explicit", "quant")):
            out.append(dict(name="%s-%s-%s" % (kind, v, s), kind=kind, vocab=v, storage=s, n=1, norms=True, meta=v != "bucket"))
    for v in ("simple", "bucket", "fasttext", "explicit"):
        for s in ("array", "quant+proj+norms"):
            for at in range(4):
                out.append(dict(name="id%d-%s-%s" % (at, v, s), kind="id", at=at, vocab=v, storage=s, n=1, norms=True,
                                meta=True))
            out.append(dict(name="id0-nometa-%s-%s" % (v, s), kind="id", at=0, vocab=v, storage=s, n=1, norms=True))
    for f in ("array", "quant-codes", "quant-floats", "norms"):
        for v in ("simple", "explicit"):
            out.append(dict(name="type-%s-%s" % (f, v), kind="type", field=f, vocab=v, n=1, norms=f == "norms",
                            storage="quant+norms" if f.startswith("quant") else "array"))
    for f in ("quant-codes", "quant-floats"):
        for st in ("quant", "quant+proj", "quant+proj+norms"):
            out.append(dict(name="type-%s-fasttext-%s" % (f, st), kind="type", field=f, vocab="fasttext", n=1, storage=st))
    out.append(dict(name="type-norms-quant", kind="type", field="norms", vocab="bucket", n=1, storage="quant", norms=True, meta=True))
    for k in range(0, 4 if tier == "quick" else 5):
        for v, s in (("simple", "array"), ("bucket", "quant"), ("explicit", "array"), ("fasttext", "quant+proj+norms")):
            if tier == "quick" and k == 3 and v not in ("simple", "fasttext"):
                continue
            out.append(dict(name="order%d-%s-%s" % (k, v, s), kind="order", k=k, vocab=v, storage=s, n=1, norms=True,
                            meta=True, weight=k))
    # a valid file with one chunk too many
    for v, s in (("simple", "array"), ("bucket", "quant"), ("explicit", "quant+norms"), ("fasttext", "array")):
        for base in ((1, 2), (0, 1, 2), (1, 2, 3), (0, 1, 2, 3)):
            if tier == "quick" and len(base) == 3 and v != "simple":
                continue
            out.append(dict(name="extra-%s-%s-%s" % ("".join(map(str, base)), v, s), kind="order", base=base, vocab=v, storage=s,
                            n=1, norms=True, meta=True, weight=2))
    return out


def run(E, case):
    P = fifu.build(E, case)
    p = E.path("e.fifu")
    kind = case["kind"]
    if kind in ("magic", "version"):
        if kind == "magic":
            bs = [E.bv("m%d" % i, 0, 255) for i in range(4)]
            E.assume(E.Or(*[E.Not(E.eq(x, y)) for x, y in zip(bs, b"FiFu")]))
            sig, ver = E.pack("<4B", *bs), 0
        else:
            sig, ver = b"FiFu", E.bv("version", 1, fifu.U32)
        ids = fifu.chunk_ids(P)
        E.write_bytes(p, sig, E.pack("<I", ver),
                      E.pack("<I%dI" % len(ids), len(ids), *ids), *[y for q in bodies(E, P, 12 + 4 * len(ids)) for y in q])
        return refused(E, P, p, kind, every=True)
    if kind == "order":
        return order(E, P, p, case)
    ids = fifu.chunk_ids(P)
    parts = bodies(E, P, 12 + 4 * len(ids))
    head = fifu.file_header(E, ids)
    if kind == "id":
        at = case["at"]
        x = E.int("id", 0, fifu.U32)
        vocabs = (fifu.SIMPLE, fifu.BUCKET, fifu.FASTTEXT, fifu.EXPLICIT)
        ok = (vocabs + (fifu.META, ), vocabs, (fifu.NDARRAY, fifu.QUANT), (fifu.NORMS, ))[at]
        for k in ok:
            E.assume(E.Not(E.eq(x, k)))
        j = at if P.metadata is not None else max(0, at - 1)
        # parts: one (id, length, body) triple per chunk
        parts[j] = (E.pack("<I", x), ) + parts[j][1:]
        E.write_bytes(p, head, *[y for q in parts for y in q])
        refused(E, P, p, kind)
        # the stand-alone loaders walk over known chunks only
        if E.truth(x > 8):
            E.note("unknown-id")
            L = c03.loaders(E)
            behind = [P.vkind, "vocab", "storage", "array" if P.skind == "array" else "quant", "norms"]
            behind = behind[0 if j == 0 else 2:] if j < 2 else behind[4:]
            for h in behind:
                if at < 3:
                    E.check(E.attempt(L[h], p).exc is not None, "load of %s behind a chunk of unknown type" % h)
        return
    f = case["field"]
    x = E.int("type", 0, fifu.U32)
    want = fifu.U8 if f == "quant-codes" else fifu.F32
    E.assume(E.Not(E.eq(x, want)))
    st, nt = {}, {}
    if f == "norms":
        nt, comp = dict(f32=x), ("norms", )
    elif f == "array":
        st, comp = dict(f32=x), ("array", "storage")
    else:
        st, comp = (dict(u8=x) if f == "quant-codes" else dict(f32=x)), ("quant", "storage")
    parts = bodies(E, P, 12 + 4 * len(ids), st, nt)
    E.write_bytes(p, head, *[y for q in parts for y in q])
    refused(E, P, p, kind)
    L = c03.loaders(E)
    for h in comp:
        for mm in ((False, True) if h != "norms" else (False, )):
            r = E.attempt(L[h], p, mmap=True) if mm else E.attempt(L[h], p)
            E.check(r.exc is not None, "load of %s with another element type" % h)


def bodies(E, P, pos, st={}, nt={}):
    """(id, length, body) per chunk, the first at file offset pos"""
    out = []

    def add(cid, body):
        nonlocal pos
        out.append((E.pack("<I", cid), E.pack("<Q", E.length(body)), body))
        pos = pos + 12 + E.length(body)

    if P.metadata is not None:
        add(fifu.META, E.toml_bytes(P.mdict))
    add(*fifu.vocab_body(E, P))
    add(*fifu.storage_body(E, P, pos + 12, **st))
    if P.norms is not None:
        add(*fifu.norms_body(E, P, pos + 12, **nt))
    return out


def refused(E, P, p, kind, every=False):
    load = E.mod("finalfusion").load_finalfusion
    for mm in (False, True):
        r = E.attempt(load, p, mmap=mm)
        E.check(r.exc is not None, "wrong %s is rejected" % kind)
    E.note("rejected-" + kind)
    if every:
        for name, f in c03.loaders(E).items():
            E.check(E.attempt(f, p).exc is not None, "wrong %s is rejected by the loader of %s" % (kind, name))


def order(E, P, p, case):
    if "base" in case:
        seq = list(case["base"])
        seq.insert(E.choice("at", list(range(len(seq) + 1))), E.choice("what", list(range(4))))
    else:
        seq = [E.choice("c%d" % i, list(range(4))) for i in range(case["k"])]
    ids = {0: fifu.META, 1: fifu.vocab_body(E, P)[0], 2: fifu.NDARRAY if P.skind == "array" else fifu.QUANT, 3: fifu.NORMS}
    data = fifu.file_header(E, [ids[c] for c in seq])
    for c in seq:
        pos = E.length(data) + 12
        if c == 0:
            ch = fifu.META, E.toml_bytes(P.mdict)
        elif c == 1:
            ch = fifu.vocab_body(E, P)
        elif c == 2:
            ch = fifu.storage_body(E, P, pos)
        else:
            ch = fifu.norms_body(E, P, pos)
        data = E.cat(data, fifu.chunk(E, *ch))
    E.write_bytes(p, data)
    core = seq[1:] if seq[:1] == [0] else seq
    valid = core[:2] == [1, 2] and (len(core) == 2 or core[2] == 3)
    if valid:
        if len(core) > 3:
            return  # what follows the norms is not looked at
        E.note("accepted-order")
        for mm in (False, True):
            e = E.mod("finalfusion").load_finalfusion(p, mmap=mm)
            fifu.check_vocab(E, P, e.vocab, "valid order")
            E.check((e.metadata is not None) == (seq[0] == 0), "metadata read if present")
            E.check((e.norms is not None) == (len(core) == 3), "norms read if present")
        return
    for mm in (False, True):
        E.check(E.attempt(E.mod("finalfusion").load_finalfusion, p, mmap=mm).exc is not None, "wrong chunk order is rejected")
    E.note("rejected-order")
