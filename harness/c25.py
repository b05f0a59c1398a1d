"""C25: malformed UTF-8 in words."""
from . import c19

WITNESSES = ("strict", "lossy", "well-formed", "malformed")
WS = (0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x20)
FORMATS = ("word2vec", "text", "textdims", "fasttext", "finalfusion")


def cases(tier):
    out = []
    for f in FORMATS:
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for where in ("only", "first", "last", "inside"):
                if tier == "quick" and n == 3 and where != "inside":
                    continue
                out.append(dict(name="%s-%d-%s" % (f, n, where), fmt=f, n=n, where=where, weight=n))
    for f in ("bucket", "fasttextvocab", "explicit", "ngram"):
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            for where in ("only", "inside"):
                out.append(dict(name="%s-%d-%s" % (f, n, where), fmt=f, n=n, where=where, weight=n))
    return out


CHUNK = {"finalfusion": 1, "bucket": 3, "fasttextvocab": 7, "explicit": 8, "ngram": 8}


def serialised(E, fmt, ws, rows):
    """a file of the given format whose words are the given bytes"""
    cols = len(rows[0])
    if fmt == "word2vec":
        parts = [b"%d %d\n" % (len(ws), cols)]
        for w, r in zip(ws, rows):
            parts += [w, b" ", E.pack("<%df" % cols, *r), b"\n"]
    elif fmt == "fasttext":
        parts = [E.pack("<ii", 793712314, 12), E.pack("<12id", cols, 5, 6, 7, 8, 1, 2, 2, 1, 99, 99, 100, 0.5),
                 E.pack("<iii", len(ws), len(ws), 0), E.pack("<qq", 12345, -1)]
        for w in ws:
            parts += [w, b"\0", E.pack("<q", 7), b"\0"]
        parts += [b"\0", E.pack("<qq", len(ws) + 1, cols)] + [E.pack("<%df" % cols, *r) for r in rows + [[0.5] * cols]]
    elif fmt in CHUNK:
        words, grams = (ws, [b"<ab"]) if fmt != "ngram" else ([b"ab"], ws)
        body = E.pack("<Q", len(words))
        if fmt in ("bucket", "fasttextvocab"):
            body = E.cat(body, E.pack("<III", 3, 6, 2))
        elif CHUNK[fmt] == 8:
            body = E.cat(body, E.pack("<QII", len(grams), 3, 6))
        for w in words:
            body = E.cat(body, E.pack("<I", E.length(w)), w)
        if CHUNK[fmt] == 8:
            for i, w in enumerate(grams):
                body = E.cat(body, E.pack("<I", E.length(w)), w, E.pack("<Q", i))
        parts = [b"FiFu", E.pack("<III", 0, 1, CHUNK[fmt]), E.pack("<IQ", CHUNK[fmt], E.length(body)), body]
    else:
        parts = [b"%d %d\n" % (len(ws), cols)] if fmt == "textdims" else []
        for w, r in zip(ws, rows):
            parts += [w] + [b" %d.5" % (int(x)) for x in r] + [b"\n"]
    return E.cat(*parts)


def run(E, case):
    fmt = case["fmt"]
    C = E.mod("finalfusion.compat")
    b = E.raw("b", case["n"], (0, ) if fmt == "fasttext" else WS if fmt not in CHUNK else ())
    ws = {"only": [b], "first": [b, b"plugh-xyzzy"], "last": [b"plugh-xyzzy", b], "inside": [b"q\xc3\xa9", E.cat(b"x", b, b"y"), b"plugh-xyzzy"]}[case["where"]]
    rows = [[3.5 + i, 4.5 + i] for i in range(len(ws))]
    p = E.path("f")
    E.write_bytes(p, serialised(E, fmt, ws, rows))
    bad = E.attempt(lambda: [E.decode(w) for w in ws]).exc is not None
    E.note("malformed" if bad else "well-formed")
    if fmt in CHUNK:
        r = E.attempt(E.mod("finalfusion.vocab").load_vocab, p)
        E.check((r.exc is not None) == bad, "refused exactly if malformed")
        if not bad:
            got = r.value.words if fmt != "ngram" else r.value.subword_indexer.ngrams
            E.check(E.eq(list(got), [E.decode(w) for w in ws]), "words")
        return
    load = getattr(C, {"word2vec": "load_word2vec", "fasttext": "load_fasttext", "text": "load_text",
                       "textdims": "load_text_dims"}[fmt])
    for how in (dict(), dict(lossy=False), dict(lossy=True)):
        r = E.attempt(load, p, **how)
        if not how.get("lossy"):
            E.note("strict")
            E.check((r.exc is not None) == bad, "refused exactly if malformed")
            if bad:
                E.check(isinstance(r.exc, ValueError), "refused as malformed text")
                continue
        E.note("lossy")
        E.check(r.exc is None, "replaced")
        want = [E.decode(w, "replace") for w in ws]
        got = r.value
        E.check(len(got.vocab.words) == len(ws), "number of words")
        for i, w in enumerate(want):
            E.check(E.eq(got.vocab.words[i], w), "word, with U+FFFD for malformed sequences")
            E.check(E.eq(got.vocab.word_index[w], i), "word index")
        for i, row in enumerate(rows):
            for j, x in enumerate(row):
                E.check(E.tight(got.storage[i][j] * got.norms[i], x, row), "vectors are not affected")
