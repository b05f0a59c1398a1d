"""C02: memory-mapped and eager loading return the same."""
from . import fifu, c01

WITNESSES = ("loaded", "component", "chunk")


def cases(tier):
    out = [dict(c, name=fifu.cfg_name(c), kind="file", weight=c["n"]) for c in c01.configs(tier)
           if c.get("n") and not (c["vocab"] == "fasttext" and tier == "quick")]
    for k in ("array", "quant", "quant+proj", "quant+norms", "quant+proj+norms"):
        for mis in (False, True):
            out.append(dict(name="chunk-%s%s" % (k, "-misaligned" if mis else ""), kind="chunk", chunk=k, mis=mis))
    return out


def same(E, a, b, P, what):
    fifu.check_storage(E, P, a, what + " eager")
    fifu.check_storage(E, P, b, what + " mapped")
    if P.skind == "array":
        E.check(E.eq(E.np.asarray(a), E.np.asarray(b)), what + ": same contents")


def run(E, case):
    if case["kind"] == "chunk":
        return chunk(E, case)
    P = fifu.build(E, case)
    if P.skind == "array" and P.vkind != "bucket":
        E.assume(P.rows > 0)
    p = E.path("e.fifu")
    P.emb.write(p)
    ff = E.mod("finalfusion")
    a = ff.load_finalfusion(p, mmap=False)
    b = ff.load_finalfusion(p, mmap=True)
    E.note("loaded")
    fifu.check_all(E, P, b, "mapped load")
    same(E, a.storage, b.storage, P, "load_finalfusion")
    fifu.check_norms(E, P, a.norms, "eager")
    St = E.mod("finalfusion.storage")
    same(E, St.load_storage(p), St.load_storage(p, mmap=True), P, "load_storage")
    E.note("component")
    f = St.load_ndarray if P.skind == "array" else St.load_quantized_array
    same(E, f(p), f(p, mmap=True), P, f.__name__)


def chunk(E, case):
    """storage of any size behind another chunk of any size"""
    P = fifu.Parts()
    k = case["chunk"]
    rows = E.int("rows", 1, 2**40)
    shape = E.int("cols", 1, 2**20) if k == "array" else (2, 3, 2)
    fifu.storage(E, P, k, shape, "<", rows=rows)
    pos = 16 + 12 if not case["mis"] else E.int("skip", 0, 2**40) + 16 + 12 + 12
    if case["mis"]:
        skip = pos - 40
        E.small(skip)
        cid, body = fifu.storage_body(E, P, pos + 4)
        E.write_bytes(E.path("c"), fifu.file_header(E, [fifu.META, cid]), E.pack("<IQ", fifu.META, skip), E.zeros(skip),
                      E.pack("<IQ", cid, E.length(body)), body)
    else:
        cid, body = fifu.storage_body(E, P, pos)
        E.write_bytes(E.path("c"), fifu.file_header(E, [cid]), E.pack("<IQ", cid, E.length(body)), body)
    E.note("chunk")
    St = E.mod("finalfusion.storage")
    same(E, St.load_storage(E.path("c")), St.load_storage(E.path("c"), mmap=True), P, "load_storage")
