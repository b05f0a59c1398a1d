"""Builds arbitrary valid embeddings and their expected serialisation."""

HEADER, SIMPLE, NDARRAY, BUCKET, QUANT, META, NORMS, FASTTEXT, EXPLICIT = range(9)
U8, F32 = 1, 10
U32 = 2**32 - 1


class Parts:
    pass


def atoms(E, name, k, minc=0):
    if k > 20:
        return [("w%d", "\u00e9%d", "\u4e2d%dx", "%d")[i % 4] % i for i in range(k)]
    ws = [E.atom("%s%d" % (name, i), minc) for i in range(k)]
    for i in range(k):
        for j in range(i):
            E.assume(E.Not(E.eq(ws[i], ws[j])))
        E.assume(E.nbytes(ws[i]) <= U32)
    return ws


def vocab(E, P, kind, n, explicit=((0, 1), 2), pre="", few=False):
    """kind: simple bucket fasttext explicit"""
    V = E.mod("finalfusion.vocab")
    S = E.mod("finalfusion.subword")
    P.vkind = kind
    P.words = atoms(E, pre + "w", n)
    P.n = n
    if kind == "simple":
        P.vocab = V.SimpleVocab(list(P.words))
        P.ub = n
        return
    P.lo = E.int(pre + "min_n", 1, U32)
    P.hi = E.int(pre + "max_n", 1, U32)
    E.assume(P.lo <= P.hi)
    if kind == "bucket":
        P.buckets = E.int(pre + "exp", 1, 1 if few else 40, soft=2)
        P.vocab = V.FinalfusionBucketVocab(list(P.words), S.FinalfusionHashIndexer(P.buckets, P.lo, P.hi))
        P.ub = n + (1 << P.buckets)
    elif kind == "fasttext":
        P.buckets = E.int(pre + "buckets", 1, 3 if few else U32)
        P.vocab = V.FastTextVocab(list(P.words), S.FastTextIndexer(P.buckets, P.lo, P.hi))
        P.ub = n + P.buckets
    else:
        P.index, top = explicit
        P.ngrams = atoms(E, pre + "g", len(P.index))
        d = E.dict(list(zip(P.ngrams, P.index)))
        P.vocab = V.ExplicitVocab(list(P.words), S.ExplicitIndexer(list(P.ngrams), P.lo, P.hi, d))
        P.ub = n + top
    P.n_buckets = P.ub - n


def numbers(E, name, shape, dtype, layout=None):
    """arbitrary numbers; layout: how they lie in memory"""
    if layout is None:
        return E.oarray(name, shape, dtype)
    if layout == "F":
        return E.array(name, shape[::-1], dtype).T
    if layout == "rows":
        return E.array(name, (2 * shape[0], ) + shape[1:], dtype)[::2]
    if layout == "cols":
        return E.array(name, shape[:-1] + (2 * shape[-1], ), dtype)[..., 1::2]
    return E.array(name, shape, dtype)[::-1]


def storage(E, P, kind, shape, bo="<", pre="", rows=None, layout=None):
    """kind: array, or quant[+proj][+norms]; shape: columns, or (subquantizers,
    centroids, dimensions per subquantizer)"""
    St = E.mod("finalfusion.storage")
    P.skind = kind
    rows = P.ub if rows is None else rows
    P.rows = rows
    if kind == "array":
        P.matrix = numbers(E, pre + "matrix", (rows, shape), bo + "f4", layout)
        P.cols = shape
        P.storage = St.NdArray(P.matrix)
        return
    Q = E.mod("finalfusion.storage.quantized")
    q, c, d = shape
    P.qlen, P.ncent, P.cols = q, c, q * d
    P.quantizers = numbers(E, pre + "quantizers", (q, c, d), bo + "f4", layout)
    P.proj = numbers(E, pre + "proj", (q * d, q * d), bo + "f4", layout) if "proj" in kind else None
    P.qnorms = numbers(E, pre + "qnorms", (rows, ), bo + "f4", layout) if "norms" in kind else None
    P.codes = numbers(E, pre + "codes", (rows, q), "u1", layout)
    P.storage = St.QuantizedArray(Q.PQ(P.quantizers, P.proj), P.codes, P.qnorms)


def norms(E, P, n, bo="<", pre="", layout=None):
    P.narray = numbers(E, pre + "norms", (n, ), bo + "f4", layout)
    P.norms = E.mod("finalfusion.norms").Norms(P.narray)


def toml_keeps(text):
    import toml
    try:
        return toml.loads(toml.dumps({"k": text})) == {"k": text}
    except (IndexError, toml.TomlDecodeError):
        return False


def metadata(E, P, pre="", empty=False):
    a, i = E.atom(pre + "meta", 1), E.int(pre + "metaint", 0, 2**63 - 1)
    if not E.symbolic and not toml_keeps(a):
        E.unsupported("text the toml package does not keep (known finding)")
    P.mdict = E.dict([("name", a), ("nested", E.dict([("dims", i)]))])
    if empty:
        P.mdict = E.dict([])
    P.metadata = E.mod("finalfusion.metadata").Metadata(P.mdict)


def build(E, cfg, pre=""):
    P = Parts()
    P.norms = P.metadata = None
    bo = cfg.get("bo", "<")
    vocab(E, P, cfg["vocab"], cfg.get("n", 2), cfg.get("explicit", ((0, 1), 2)), pre,
          few=bo == ">" and cfg["storage"] == "array")
    storage(E, P, cfg["storage"], cfg.get("shape", 3 if cfg["storage"] == "array" else (2, 3, 2)), bo, pre,
            layout=cfg.get("layout"))
    if cfg.get("norms"):
        norms(E, P, P.n, bo, pre, cfg.get("layout"))
    if cfg.get("meta"):
        metadata(E, P, pre, cfg["meta"] == "empty")
    P.emb = E.mod("finalfusion.embeddings").Embeddings(P.storage, P.vocab, P.norms, P.metadata)
    return P


def cfg_name(c):
    s = "%s%d-%s-%s" % (c["vocab"], c.get("n", 2), c["storage"], "be" if c.get("bo") == ">" else "le")
    if c.get("shape") is not None:
        s += "-" + "x".join(map(str, c["shape"] if isinstance(c["shape"], tuple) else (c["shape"], )))
    if c.get("norms"):
        s += "-norms"
    if c.get("meta"):
        s += "-meta" if c["meta"] is True else "-meta-" + c["meta"]
    if c.get("layout"):
        s += "-" + c["layout"]
    if c.get("explicit"):
        s += "-ix" + ("".join(map(str, c["explicit"][0])) if len(c["explicit"][0]) < 9 else "many")
    return s


# -------------------------------------------------------- reading back


def check_vocab(E, P, v, what):
    names = {"simple": "SimpleVocab", "bucket": "FinalfusionBucketVocab", "fasttext": "FastTextVocab",
             "explicit": "ExplicitVocab"}
    E.check(type(v).__name__ == names[P.vkind], what + ": vocabulary type")
    E.check(len(v.words) == P.n, what + ": number of words")
    E.check(E.eq(list(v.words), list(P.words)), what + ": words in order")
    E.check(len(v) == P.n, what + ": vocabulary length")
    for i, w in enumerate(P.words):
        E.check(E.eq(v.word_index[w], i), what + ": word index")
    E.check(E.eq(v.upper_bound, P.ub), what + ": upper bound")
    if P.vkind == "simple":
        return
    E.check(E.eq((v.min_n, v.max_n), (P.lo, P.hi)), what + ": n-gram range")
    ix = v.subword_indexer
    E.check(E.eq(ix.upper_bound, P.n_buckets), what + ": indexer bound")
    if P.vkind == "bucket":
        E.check(E.eq(ix.buckets_exp, P.buckets), what + ": bucket exponent")
    elif P.vkind == "fasttext":
        E.check(E.eq(ix.n_buckets, P.buckets), what + ": bucket count")
    else:
        E.check(E.eq(list(ix.ngrams), list(P.ngrams)), what + ": n-grams in order")
        E.check(len(ix) == len(P.ngrams), what + ": number of n-grams")
        for g, i in zip(P.ngrams, P.index):
            E.check(E.eq(ix(g), i), what + ": n-gram index")


def check_storage(E, P, s, what):
    sh = s.shape
    E.check(len(sh) == 2, what + ": storage has two dimensions")
    E.check(E.eq((sh[0], sh[1]), (P.rows, P.cols)), what + ": storage shape")
    if P.skind == "array":
        E.check(type(s).__name__ == "NdArray", what + ": storage type")
        E.check(E.same(E.np.asarray(s), P.matrix), what + ": matrix")
        return
    E.check(type(s).__name__ == "QuantizedArray", what + ": storage type")
    E.check(E.eq(s.quantized_len, P.qlen), what + ": code length")
    E.check(E.eq(s.quantizer.n_centroids, P.ncent), what + ": number of centroids")
    E.check(E.same(s.quantizer.subquantizers, P.quantizers), what + ": centroids")
    E.check((s.quantizer.projection is None) == (P.proj is None), what + ": projection present")
    if P.proj is not None:
        E.check(E.same(s.quantizer.projection, P.proj), what + ": projection")
    # the codes and norms have no public accessor: whatever the attributes are called
    codes, qnorms = [[v for v in vars(s).values() if getattr(v, "ndim", None) == d] for d in (2, 1)]
    if len(codes) != 1 or len(qnorms) > 1:
        E.unsupported("which attributes of QuantizedArray hold codes and norms")
    E.check((len(qnorms) == 0) == (P.qnorms is None), what + ": storage norms present")
    if P.qnorms is not None:
        E.check(E.same(qnorms[0], P.qnorms), what + ": storage norms")
    E.check(E.same(E.np.asarray(codes[0]), P.codes), what + ": codes")


def check_norms(E, P, nr, what):
    E.check((nr is None) == (P.norms is None), what + ": norms present")
    if P.norms is not None:
        E.check(type(nr).__name__ == "Norms", what + ": norms type")
        E.check(E.same(E.np.asarray(nr), P.narray), what + ": norms")


def check_meta(E, P, m, what):
    E.check((m is None) == (P.metadata is None), what + ": metadata present")
    if P.metadata is not None:
        E.check(type(m).__name__ == "Metadata", what + ": metadata type")
        E.check(E.eq(m, P.mdict), what + ": metadata")


def check_all(E, P, e, what):
    check_vocab(E, P, e.vocab, what)
    check_storage(E, P, e.storage, what)
    check_norms(E, P, e.norms, what)
    check_meta(E, P, e.metadata, what)


# ------------------------------------------------- expected serialisation


def pad(E, pos):
    """one to four zero bytes up to the next multiple of four"""
    return E.zeros(4 - pos % 4)


def word_bytes(E, ws):
    out = []
    for w in ws:
        out += [E.pack("<I", E.nbytes(w)), E.utf8(w)]
    return out


def vocab_body(E, P):
    if P.vkind == "simple":
        return SIMPLE, E.cat(E.pack("<Q", P.n), *word_bytes(E, P.words))
    if P.vkind in ("bucket", "fasttext"):
        return (BUCKET if P.vkind == "bucket" else FASTTEXT), E.cat(
            E.pack("<QIII", P.n, P.lo, P.hi, P.buckets), *word_bytes(E, P.words))
    parts = [E.pack("<QQII", P.n, len(P.ngrams), P.lo, P.hi)] + word_bytes(E, P.words)
    for g, i in zip(P.ngrams, P.index):
        parts += [E.pack("<I", E.nbytes(g)), E.utf8(g), E.pack("<Q", i)]
    return EXPLICIT, E.cat(*parts)


def storage_body(E, P, pos, u8=U8, f32=F32):
    """pos: file offset of the body"""
    if P.skind == "array":
        head = E.pack("<QII", P.rows, P.cols, f32)
        return NDARRAY, E.cat(head, pad(E, pos + 16), E.le_bytes(P.matrix))
    head = E.pack("<IIIIIQII", int(P.proj is not None), int(P.qnorms is not None), P.qlen, P.cols, P.ncent, P.rows, u8, f32)
    parts = [head, pad(E, pos + 36)]
    if P.proj is not None:
        parts.append(E.le_bytes(P.proj))
    parts.append(E.le_bytes(P.quantizers))
    if P.qnorms is not None:
        parts.append(E.le_bytes(P.qnorms))
    parts.append(E.le_bytes(P.codes))
    return QUANT, E.cat(*parts)


def norms_body(E, P, pos, f32=F32):
    return NORMS, E.cat(E.pack("<QI", P.n, f32), pad(E, pos + 12), E.le_bytes(P.narray))


def chunk_ids(P):
    v = {"simple": SIMPLE, "bucket": BUCKET, "fasttext": FASTTEXT, "explicit": EXPLICIT}[P.vkind]
    return ([META] if P.metadata is not None else []) + [v, NDARRAY if P.skind == "array" else QUANT] + (
        [NORMS] if P.norms is not None else [])


def file_header(E, ids):
    return E.cat(b"FiFu", E.pack("<II%dI" % len(ids), 0, len(ids), *ids))


def chunk(E, cid, body):
    return E.cat(E.pack("<IQ", cid, E.length(body)), body)


def serialise(E, P, meta_body=None):
    """the file as the format documents it (metadata text given)"""
    ids = chunk_ids(P)
    data = file_header(E, ids)
    if P.metadata is not None:
        data = E.cat(data, chunk(E, META, meta_body))
    data = E.cat(data, chunk(E, *vocab_body(E, P)))
    data = E.cat(data, chunk(E, *storage_body(E, P, E.length(data) + 12)))
    if P.norms is not None:
        data = E.cat(data, chunk(E, *norms_body(E, P, E.length(data) + 12)))
    return data
