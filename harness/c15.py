"""C15: analogy queries."""
from . import emb, c14

WITNESSES = ("analogy", "none", "oov", "skip", "cli", "cli-none")
WORDS = ["ab", "cde", "f", "gh"]


def cases(tier):
    out = []
    n = 4
    qs = [("ab", "cde", "f"), ("f", "gh", "ab"), ("ab", "ab", "cde"), ("cde", "f", "cde")]
    for q in qs:
        for k in (1, 2, 4) if tier == "quick" else (0, 1, 2, 3, 4, 6):
            for sk in range(5):
                if tier == "quick" and k == 4 and sk not in (0, 3):
                    continue
                out.append(dict(name="vec-%s-k%d-s%d" % ("".join(q), k, sk), mode="lib", kind="simple", n=n, k=k, q=q, skip=sk,
                                cols=1, skind="array"))
    # two dimensions: order and direction
    for q in qs[:2]:
        for n2, sk in ((3, 0), (3, 3), (4, 0)):
            out.append(dict(name="vec2-%s-%d-s%d" % ("".join(q), n2, sk), mode="lib", kind="simple", n=n2, k=2, q=q, skip=sk,
                            cols=2, skind="array", weight=8))
    # unknown words
    for kind in ("simple", "bucket", "fasttext", "explicit"):
        for pos in range(3):
            q = ["ab", "cde", "f"]
            q[pos] = "zzz"
            out.append(dict(name="unk-%s-%d" % (kind, pos), mode="lib", kind=kind, n=3, k=2, q=tuple(q), skip=0, cols=1,
                            skind="array"))
    for skd in ("quant", "quant+norms", "quant+proj"):
        out.append(dict(name="store-" + skd, mode="lib", kind="simple", n=4, k=2, q=("f", "ab", "cde"), skip=0, cols=2,
                        skind=skd))
    for q in (("ab", "cde", "f"), ("gh", "ab", "gh")):
        for inc in ((), ("a", ), ("b", ), ("c", ), ("a", "b"), ("b", "c"), ("c", "a"), ("c", "b", "a")):
            out.append(dict(name="cli-%s-%s" % ("".join(q), "".join(inc) or "-"), mode="cli", kind="simple", n=4, k=2, q=q,
                            inc=inc, cols=1, skind="array"))
    out.append(dict(name="cli-stdin", mode="cli", kind="simple", n=4, k=2, q=("ab", "cde", "f"), inc=("b", ), cols=1,
                    skind="array", stdin=True))
    for inc in ((), ("a", ), ("c", "b")):
        out.append(dict(name="cli-lines-%s" % "".join(inc), mode="cli", kind="simple", n=4, k=2, q=("ab", "cde", "f"), inc=inc, cols=1,
                        skind="array", more=(("ab", "zz", "f"), ("gh", "f", "cde"), ("cde", "cde", "ab"))))
    out.append(dict(name="cli-unknown", mode="cli", kind="simple", n=3, k=2, q=("ab", "zz", "f"), inc=(), cols=1,
                    skind="array"))
    out.append(dict(name="cli-default-k", mode="cli", kind="simple", n=4, k=None, q=("ab", "cde", "f"), inc=("a", "c"),
                    cols=1, skind="array"))
    out.append(dict(name="defaults", mode="defaults"))
    return out


def vector(E, e, w):
    if w in e.words:
        return e.rows[e.words.index(w)]
    idx = emb.subword_rows(E, e, w) if e.kind != "simple" else []
    if not idx:
        return None
    E.note("oov")
    s = [emb.total([e.rows[i][j] for i in idx]) for j in range(e.cols)]
    sq = emb.total([x * x for x in s])
    E.assume(sq > (0 if E.symbolic else 1e-2))
    root = E.sqrt(sq)
    return [x / root for x in s]


def goal(E, e, q):
    a, b, c = (vector(E, e, w) for w in q)
    if a is None or b is None or c is None:
        return None
    d = [z + y - x for x, y, z in zip(a, b, c)]
    sq = emb.total([x * x for x in d])
    E.assume(sq > (0 if E.symbolic else 1e-2))
    root = E.sqrt(sq)
    return [x / root for x in d]


def defaults(E):
    """one answer of a query, ten of the tool"""
    words = ["w%d" % i for i in range(15)]
    m = E.np.array([[float(i + 1)] for i in range(15)], dtype=E.np.float32)
    em = E.mod("finalfusion.embeddings").Embeddings(E.mod("finalfusion.storage").NdArray(m), E.mod("finalfusion.vocab").SimpleVocab(words))
    E.check([r.word for r in em.analogy("w0", "w14", "w1")] == ["w13"], "one answer by default")
    p, i = E.path("e.fifu"), E.path("q")
    em.write(p)
    E.write_bytes(i, b"w0 w14 w1\n")
    r = E.script("finalfusion.scripts.analogy", [p, i])
    got = [E.text(l).split()[0] for l in E.lines(r.out)]
    E.check(got == ["w%d" % k for k in range(13, 3, -1)], "ten answers of ffp-analogy by default")


def run(E, case):
    if case["mode"] == "defaults":
        return defaults(E)
    n, kind, q = case["n"], case["kind"], case["q"]
    words = WORDS[:n]
    e = emb.build(E, kind, words, case["skind"], case["cols"], False, 3, 4, 3 if kind == "fasttext" else 1,
                  grams=["<zz", "zzz"], codes=(0, 1, 1, 1, 0, 0, 1))
    target = goal(E, e, q)
    if case["mode"] == "cli":
        return cli(E, e, case, target)
    skip = [None, set(), {q[0]}, {q[1], q[2]}, {"gh", "nope"}][case["skip"]]
    before = E.np.array(e.matrix) if e.skind == "array" else None
    if skip is None:
        res = e.emb.analogy(q[0], q[1], q[2], k=case["k"])
    else:
        E.note("skip")
        res = e.emb.analogy(q[0], q[1], q[2], case["k"], set(skip))
    if before is not None:
        E.check(E.eq(E.np.asarray(e.storage), before), "the storage is not modified")
    if target is None:
        E.note("none")
        E.check(res is None, "no analogy without embeddings for all parts")
        return
    E.note("analogy")
    c14.verify(E, e, res, target, case["k"], set(q) if skip is None else skip, 2e-5)


class Row:
    def __init__(self, word, similarity):
        self.word, self.similarity = word, similarity


def cli(E, e, case, target):
    q, inc = case["q"], case["inc"]
    p, i = E.path("e.fifu"), E.path("queries.txt")
    e.emb.write(p)
    qs = [q] + list(case.get("more", ()))
    E.write_bytes(i, E.utf8("".join(" ".join(x) + "\n" for x in qs)))
    # an empty --include list would be a usage error
    argv = [p, i]
    if case["k"] is not None:
        argv += ["-k", str(case["k"])]
    if inc:
        argv += ["--include"] + list(inc)
    if case.get("stdin"):
        r = E.script("finalfusion.scripts.analogy", [p] + argv[2:], stdin=" ".join(q) + "\n")
    else:
        r = E.script("finalfusion.scripts.analogy", argv)
    E.check(r.exc is None and r.code == 0, "ffp-analogy succeeds")
    lines = E.lines(r.out)
    k, at = 10 if case["k"] is None else case["k"], 0
    for n, x in enumerate(qs):
        t = goal(E, e, x) if n else target
        if t is None:
            E.note("cli-none")
            continue
        E.note("cli")
        skip = {w for w, y in zip(x, "abc") if y not in inc}
        m = min(k, len([w for w in e.words if w not in skip]))
        E.check(at + m <= len(lines), "an answer for every query")
        res = []
        for l in lines[at:at + m]:
            parts = l.split(" ")
            E.check(len(parts) == 2, "one word and similarity per line")
            res.append(Row(E.text(parts[0]), E.float(parts[1])))
        at += m
        c14.verify(E, e, res, t, k, skip, 2e-5)
    E.check(at == len(lines), "no other output")
