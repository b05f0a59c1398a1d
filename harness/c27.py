"""C27: every kind of file argument works alike, and writing replaces the whole file."""
import pathlib
from . import emb, fifu

WITNESSES = ("bytes", "pathlike", "fd", "mmap", "component", "compat", "replaced")
KINDS = ("str", "bytes", "pathlike", "fd")
CONFIGS = (dict(vocab="simple", storage="array", n=2, norms=True, meta=True),
           dict(vocab="bucket", storage="quant+norms", n=1, norms=True),
           dict(vocab="fasttext", storage="array", n=1, norms=True),
           dict(vocab="explicit", storage="quant+proj", n=2))
MORE = (dict(vocab="simple", storage="quant+proj+norms", n=3, norms=True), dict(vocab="explicit", storage="array", n=1, meta=True),
        dict(vocab="bucket", storage="array", n=2, norms=True, meta=True), dict(vocab="simple", storage="quant", n=1))
FORMATS = ("word2vec", "text", "textdims", "fasttext")
WORDS = ["ab", "\u00fcx", "c"]


def cases(tier):
    out = []
    for c in CONFIGS + (MORE if tier != "quick" else ()):
        for k in KINDS:
            out.append(dict(c, name="load-%s-%s" % (fifu.cfg_name(c), k), mode="load", arg=k))
            out.append(dict(c, name="write-%s-%s" % (fifu.cfg_name(c), k), mode="write", arg=k))
    for f in FORMATS:
        for k in KINDS:
            out.append(dict(name="load-%s-%s" % (f, k), mode="compat", fmt=f, arg=k))
            out.append(dict(name="write-%s-%s" % (f, k), mode="wcompat", fmt=f, arg=k))
    return out


def run(E, case):
    if case["arg"] != "str":
        E.note(case["arg"])
    return globals()["run_" + case["mode"]](E, case)


def arg(E, kind, p, write=False):
    if kind == "str":
        return p
    if kind == "bytes":
        return p.encode()
    if kind == "pathlike":
        return pathlib.PurePosixPath(p)
    return E.fd(p, write)


def run_load(E, case):
    P = fifu.build(E, case)
    if P.skind == "array" and P.vkind != "bucket":
        E.assume(P.rows > 0)
    p, k = E.path("e.fifu"), case["arg"]
    P.emb.write(p)
    ff, V, St = E.mod("finalfusion"), E.mod("finalfusion.vocab"), E.mod("finalfusion.storage")
    for mm in (False, True):
        what = "load_finalfusion of a %s%s" % (k, ", mapped" * mm)
        fifu.check_all(E, P, ff.load_finalfusion(arg(E, k, p), mm), what)
        fifu.check_storage(E, P, St.load_storage(arg(E, k, p), mm), "load_storage" + what[16:])
        f = St.load_ndarray if P.skind == "array" else St.load_quantized_array
        fifu.check_storage(E, P, f(arg(E, k, p), mm), f.__name__ + what[16:])
    E.note("mmap")
    what = " of a " + k
    fifu.check_vocab(E, P, V.load_vocab(arg(E, k, p)), "load_vocab" + what)
    f = {"simple": V.load_simple_vocab, "bucket": V.load_finalfusion_bucket_vocab, "fasttext": V.load_fasttext_vocab,
         "explicit": V.load_explicit_vocab}[P.vkind]
    fifu.check_vocab(E, P, f(arg(E, k, p)), f.__name__ + what)
    if P.norms is not None:
        fifu.check_norms(E, P, E.mod("finalfusion.norms").load_norms(arg(E, k, p)), "load_norms" + what)
    if P.metadata is not None:
        fifu.check_meta(E, P, E.mod("finalfusion.metadata").load_metadata(arg(E, k, p)), "load_metadata" + what)
    E.note("component")


def old(E, p, want, tail=7):
    """a file with other contents, longer than what replaces it"""
    E.write_bytes(p, want, b"\x02old" * 2, E.zeros(tail))


def run_write(E, case):
    P = fifu.build(E, case)
    k = case["arg"]
    parts = [("embeddings", P.emb), ("vocabulary", P.vocab), ("storage", P.storage)]
    parts += [("norms", P.norms)] * (P.norms is not None) + [("metadata", P.metadata)] * (P.metadata is not None)
    tail = E.int("tail", 0, 2**40)
    E.small(tail)
    for name, x in parts:
        a, b = E.path("new." + name), E.path("old." + name)
        x.write(a)
        want = E.read_bytes(a)
        old(E, b, want, tail)
        x.write(arg(E, k, b, True))
        E.check(E.eq(E.read_bytes(b), want), "%s written to a %s: the file has exactly the new contents" % (name, k))
        E.check(E.eq(E.read_bytes(a), want), "%s: the other file is left alone" % name)
    E.note("replaced")
    fifu.check_all(E, P, E.mod("finalfusion").load_finalfusion(E.path("old.embeddings")), "written to a " + k)


def model(E, fmt):
    e = emb.build(E, "fasttext" if fmt == "fasttext" else "simple", WORDS, "array", 2, True, size=2)
    for i in range(e.n):
        E.assume(emb.total([x * x for x in e.rows[i]]) > (0 if E.symbolic else 1e-3))
        E.assume(e.norms[i] > (0 if E.symbolic else 1e-3))
    return e


def writer(E, fmt):
    C = E.mod("finalfusion.compat")
    return {"word2vec": C.write_word2vec, "text": C.write_text, "textdims": C.write_text_dims, "fasttext": C.write_fasttext}[fmt]


def loader(E, fmt):
    C = E.mod("finalfusion.compat")
    return {"word2vec": C.load_word2vec, "text": C.load_text, "textdims": C.load_text_dims, "fasttext": C.load_fasttext}[fmt]


def same(E, a, b, what):
    E.check(list(a.vocab.words) == WORDS and list(b.vocab.words) == WORDS, what + ": words")
    x, y = E.np.asarray(a.storage), E.np.asarray(b.storage)
    E.check(x.shape == y.shape, what + ": shape")
    E.check(E.same(x, y), what + ": matrix")
    E.check(E.same(E.np.asarray(a.norms), E.np.asarray(b.norms)), what + ": norms")


def run_compat(E, case):
    fmt, k = case["fmt"], case["arg"]
    e = model(E, fmt)
    p = E.path("in")
    writer(E, fmt)(p, e.emb)
    f = loader(E, fmt)
    same(E, f(p), f(arg(E, k, p)), "%s from a %s" % (f.__name__, k))
    same(E, f(p), f(arg(E, k, p), lossy=True), "%s from a %s, lossy" % (f.__name__, k))
    E.note("compat")


def run_wcompat(E, case):
    fmt, k = case["fmt"], case["arg"]
    e = model(E, fmt)
    a, b = E.path("new"), E.path("old")
    f = writer(E, fmt)
    f(a, e.emb)
    want = E.read_bytes(a)
    old(E, b, want)
    f(arg(E, k, b, True), e.emb)
    E.check(E.eq(E.read_bytes(b), want), "%s to a %s: the file has exactly the new contents" % (f.__name__, k))
    E.note("replaced")
