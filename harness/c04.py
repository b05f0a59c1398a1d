"""C04: written files follow the wire format, byte for byte."""
from . import fifu, c01

WITNESSES = ("file", "chunk")
CHUNKS = ("simple", "bucket", "fasttext", "explicit", "array", "quant", "quant+proj", "quant+norms", "quant+proj+norms",
          "norms", "meta")


def cases(tier):
    out = [dict(c, name=fifu.cfg_name(c), kind="file", weight=c["n"]) for c in c01.configs(tier)]
    for k in CHUNKS:
        for bo in "<>":
            if bo == ">" and k in ("simple", "bucket", "fasttext", "explicit", "meta"):
                continue
            for mis in ((False, True) if k.startswith(("array", "quant", "norms")) else (False, )):
                out.append(dict(name="chunk-%s-%s%s" % (k, "be" if bo == ">" else "le", "-misaligned" if mis else ""),
                                kind="chunk", chunk=k, bo=bo, n=2, mis=mis))
    return out


def run(E, case):
    if case["kind"] == "chunk":
        return chunk(E, case)
    P = fifu.build(E, case)
    p = E.path("e.fifu")
    P.emb.write(p)
    E.note("file")
    data = E.read_bytes(p)
    mb = None
    if P.metadata is not None:
        mb = E.toml_bytes(P.mdict)
    want = fifu.serialise(E, P, mb)
    E.check(E.eq(E.length(data), E.length(want)), "file size")
    E.check(E.eq(data, want), "file contents")


def chunk(E, case):
    """one chunk of arbitrary dimensions, in a file of its own or at an
    arbitrary position in a file"""
    P = fifu.Parts()
    P.norms = P.metadata = None
    k, bo = case["chunk"], case["bo"]
    if k in ("simple", "bucket", "fasttext", "explicit"):
        fifu.vocab(E, P, k, case["n"])
        obj, body = P.vocab, lambda pos: fifu.vocab_body(E, P)
    elif k == "norms":
        P.n = E.int("n_norms", 0, 2**40)
        fifu.norms(E, P, P.n, bo)
        obj, body = P.norms, lambda pos: fifu.norms_body(E, P, pos)
    elif k == "meta":
        fifu.metadata(E, P)
        obj, body = P.metadata, lambda pos: (fifu.META, E.toml_bytes(P.mdict))
    else:
        if k == "array":
            rows = E.int("rows", 0, 3 if bo == ">" else 2**28)
            shape = E.int("cols", 0, fifu.U32)
        else:
            rows = E.int("rows", 0, 2**40)
            shape = (2, 3, 2)
        fifu.storage(E, P, k, shape, bo, rows=rows)
        obj, body = P.storage, lambda pos: fifu.storage_body(E, P, pos)
    E.note("chunk")
    p = E.path("c.fifu")
    if not case["mis"]:
        obj.write(p)
        cid, _ = body(0)
        head = fifu.file_header(E, [cid])
        cid, b = body(E.length(head) + 12)
        want = E.cat(head, fifu.chunk(E, cid, b))
    else:
        skip = E.int("position", 0, 2**40)
        E.small(skip)
        with E.open(p, "wb") as f:
            f.write(E.zeros(skip))
            obj.write_chunk(f)
        cid, b = body(skip + 12)
        want = E.cat(E.zeros(skip), fifu.chunk(E, cid, b))
    data = E.read_bytes(p)
    E.check(E.eq(E.length(data), E.length(want)), "size")
    E.check(E.eq(data, want), "contents")
