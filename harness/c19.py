"""C19: fastText files."""
from . import emb, c17, common

WITNESSES = ("loaded", "round-trip", "no-subwords", "norms", "no-norms", "quantized", "refused-vocab", "refused-file",
             "symbolic-word", "config")
KEYS = ["dims", "window_size", "epoch", "min_count", "ns", "word_ngrams", "loss", "model", "buckets", "min_n", "max_n",
        "lr_update_rate", "sampling_threshold"]
LOSS = ["HierarchicalSoftmax", "NegativeSampling", "Softmax"]
MODEL = ["CBOW", "SkipGram", "Supervised"]
WORDSETS = {"a": ["a"], "tu": ["tübe", "x"], "mixed": ["abc", "", "\U0001f600é", "b\u00a0c"], "long": ["hello", "hell"],
            "tail": ["a\u3000", "b"]}
RANGES = [(1, 1), (2, 3), (3, 3), (3, 6), (4, 5)]


def cases(tier):
    out = []
    for name, ws in WORDSETS.items():
        for lo, hi in RANGES:
            for b in (1, 3) if tier == "quick" else (1, 2, 3, 5, 7):
                base = dict(words=tuple(ws), lo=lo, hi=hi, b=b, cols=2)
                out.append(dict(base, name="load-%s-%d:%d-%d" % (name, lo, hi, b), mode="load"))
                for norms in (False, True):
                    out.append(dict(base, name="trip-%s-%d:%d-%d%s" % (name, lo, hi, b, "-norms" * norms), mode="trip",
                                    norms=norms, skind="array"))
    for sk, extra in (("array", dict(dtype=">f4")), ("array", dict(layout="F"))):
        out.append(dict(name="trip-" + "".join(extra), mode="trip", words=("ab", "c"), lo=3, hi=4, b=2, cols=2, norms=True,
                        skind=sk, **extra))
    for cols in (1, 3):
        base = dict(words=("ab", "c"), lo=3, hi=4, b=2, cols=cols)
        out.append(dict(base, name="load-cols%d" % cols, mode="load"))
        out.append(dict(base, name="trip-cols%d" % cols, mode="trip", norms=True, skind="array"))
    for sk in ("quant", "quant+norms", "quant+proj+norms"):
        out.append(dict(name="trip-" + sk, mode="trip", words=("ab", "c"), lo=3, hi=4, b=2, cols=2, norms=sk == "quant",
                        skind=sk))
    for n, lo, hi, b in ((1, 3, 3, 2), (1, 1, 2, 2), (2, 3, 3, 1)) if tier == "quick" else ((1, 3, 3, 2), (1, 3, 3, 3), (1, 1, 2, 2),
                                                                                          (2, 3, 3, 1), (2, 4, 4, 2),
                                                                                          (3, 5, 5, 2), (1, 1, 3, 2)):
        for mode in ("load", "trip"):
            out.append(dict(name="%s-sym%d-%d:%d-%d" % (mode, n, lo, hi, b), mode=mode, sym=n, words=(), lo=lo, hi=hi, b=b, cols=1,
                            norms=True, skind="array", weight=5))
    for k in range(9):
        out.append(dict(name="bad-%d" % k, mode="bad", bad=k, words=("ab", ), lo=3, hi=4, b=2, cols=1))
    for vk in ("simple", "bucket", "explicit"):
        out.append(dict(name="vocab-" + vk, mode="vocab", vkind=vk, words=("ab", ), cols=1))
    out.append(dict(name="config", mode="load", words=("ab", ), lo=3, hi=4, b=2, cols=1, cfg=True))
    return out


def words_of(E, case):
    if case.get("sym"):
        E.note("symbolic-word")
        return [E.word("w", case["sym"], (0, ))]
    return list(case["words"])


def subwords(E, ws, case):
    """bucket numbers per word"""
    ix = E.mod("finalfusion.subword").FastTextIndexer(case["b"], case["lo"], case["hi"])
    return [[ix(g) for g in common.ngrams(common.bracket(w), case["lo"], case["hi"])] for w in ws]


def ft_file(E, ws, matrix, rows, case, magic=793712314, version=12, labels=0, prune=-1, quant=0, etype=0, cfg=None):
    cfg = cfg or [case["cols"], 5, 6, 7, 8, 1, 2, 2, case["b"], case["lo"], case["hi"], 100, 0.5]
    data = E.cat(E.pack("<ii", magic, version), E.pack("<12id", *cfg),
                 E.pack("<iii", len(ws), len(ws) - labels, labels), E.pack("<qq", 12345, prune))
    for i, w in enumerate(ws):
        data = E.cat(data, E.utf8(w), b"\0", E.pack("<q", 77 + i), E.pack("<b", etype if i == 0 else 0))
    return E.cat(data, E.pack("<?", bool(quant)), E.pack("<qq", rows, case["cols"]), E.le_bytes(matrix))


def run(E, case):
    C = E.mod("finalfusion.compat")
    p = E.path("m.bin")
    mode = case["mode"]
    if mode == "vocab":
        e = emb.build(E, case["vkind"], case["words"], "array", 1, grams=["ab"])
        r = E.attempt(C.write_fasttext, p, e.emb)
        E.check(r.exc is not None, "embeddings with another vocabulary are refused")
        E.write_bytes(p, b"something else")
        r = E.attempt(C.write_fasttext, p, e.emb)
        E.check(r.exc is not None, "embeddings with another vocabulary are refused")
        E.check(E.eq(E.read_bytes(p), b"something else"), "an existing file is left alone")
        E.note("refused-vocab")
        return
    ws = words_of(E, case)
    n, cols = len(ws), case["cols"]
    sub = subwords(E, ws, case)
    if mode in ("load", "bad"):
        rows = n + case["b"]
        m = E.array("m", (rows, cols))
        if mode == "bad":
            return bad(E, C, p, ws, m, rows, case)
        cfg = None
        if case.get("cfg"):
            v = [E.int("c%d" % i, -2**31, 2**31 - 1, soft=9) for i in range(6)]
            loss, model = E.choice("loss", [1, 2, 3]), E.choice("model", [1, 2, 3])
            cfg = [cols, v[0], v[1], v[2], v[3], v[4], loss, model, case["b"], case["lo"], case["hi"], v[5], 0.25]
        E.write_bytes(p, ft_file(E, ws, m, rows, case, cfg=cfg))
        plain = []
        for i in range(n):
            r = []
            for j in range(cols):
                vals = [m[i, j]] + [E.pick([m[n + b, j] for b in range(case["b"])], s) for s in sub[i]]
                r.append(emb.total(vals) / len(vals))
            E.assume(emb.total([x * x for x in r]) > (0 if E.symbolic else 1e-3))
            plain.append(r)
        got = C.load_fasttext(p)
        E.note("loaded")
        verify(E, got, ws, plain, [[m[n + b, j] for j in range(cols)] for b in range(case["b"])], case, True)
        if cfg:
            E.note("config")
            cfg[6], cfg[7] = LOSS[cfg[6] - 1], MODEL[cfg[7] - 1]
            E.check(got.metadata is not None and len(got.metadata) == len(KEYS), "the configuration is kept")
            for k, x in zip(KEYS, cfg):
                E.check(E.eq(got.metadata[k], x), "configuration: " + k)
        return
    e = emb.build(E, "fasttext", ws, case["skind"], cols, case["norms"], case["lo"], case["hi"], case["b"],
                  codes=(0, 1, 1, 0, 1), dtype=case.get("dtype", "float32"), layout=case.get("layout"))
    plain = []
    for i in range(n):
        r = e.rows[i]
        if case["norms"]:
            r = [x * e.norms[i] for x in r]
        E.assume(emb.total([x * x for x in r]) > (0 if E.symbolic else 1e-3))
        plain.append(r)
    before = E.np.array(e.matrix) if e.skind == "array" else None
    C.write_fasttext(p, e.emb)
    if before is not None:
        E.check(E.eq(E.np.asarray(e.storage), before), "the storage is not modified by writing")
        if case["norms"]:
            E.check(E.eq(E.np.asarray(e.emb.norms), e.norms), "the norms are not modified by writing")
    for lossy in (False, True):
        got = C.load_fasttext(p, lossy)
        verify(E, got, ws, plain, e.rows[n:], case, e.skind == "array")
    E.note("round-trip")
    E.note("norms" if case["norms"] else "no-norms")
    if e.skind != "array":
        E.note("quantized")
    if not case.get("sym") and any(not s for s in sub):
        E.note("no-subwords")


def verify(E, got, ws, plain, buckets, case, exact=False):
    v = got.vocab
    E.check(type(v).__name__ == "FastTextVocab", "fastText vocabulary")
    E.check((v.min_n, v.max_n, v.subword_indexer.n_buckets) == (case["lo"], case["hi"], case["b"]), "n-gram settings")
    E.check(got.storage.shape[0] == len(ws) + case["b"], "number of rows")
    c17.compare(E, ws, plain, got, "words", parts=[x * (1 + 4 * max(1, len(w))) for w, r in zip(ws, plain) for x in r] +
                [x for r in buckets for x in r])
    for b, want in enumerate(buckets):
        row = got.storage[len(ws) + b]
        for j, x in enumerate(want):
            E.check(E.eq(row[j], x) if exact else E.tight(row[j], x, want), "subword rows are kept")


def bad(E, C, p, ws, m, rows, case):
    k = case["bad"]
    kw = {}
    if k == 0:
        kw["magic"] = E.int("magic", -2**31, 2**31 - 1)
        E.assume(E.Not(E.eq(kw["magic"], 793712314)))
    elif k == 1:
        kw["version"] = E.int("version", -2**31, 2**31 - 1)
        E.assume(E.Not(E.eq(kw["version"], 12)))
    elif k == 2:
        kw["labels"] = E.int("labels", 1, 2**31 - 2)
    elif k == 3:
        kw["prune"] = E.int("prune", 0, 2**62)
    elif k == 4:
        kw["quant"] = 1
    elif k == 5:
        kw["etype"] = E.int("type", -128, 127)
        E.assume(E.Not(E.eq(kw["etype"], 0)))
    elif k == 6:
        # truncated matrix
        kw = None
    elif k in (7, 8):
        # a complete matrix with too few or too many rows
        kw = None
        rows = rows - 2 if k == 7 else rows
        m = m[:-1] if k == 7 else E.array("mm", (rows + 1, case["cols"]))
    if kw is None:
        data = ft_file(E, ws, m, rows + 1, case)
    else:
        data = ft_file(E, ws, m, rows, case, **kw)
    E.write_bytes(p, data)
    for lossy in (False, True):
        E.check(E.attempt(C.load_fasttext, p, lossy).exc is not None, "unsupported or malformed file is refused")
    E.note("refused-file")
