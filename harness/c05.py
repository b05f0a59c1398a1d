"""C05: a cut-off finalfusion file is never loaded as if it were complete."""
from . import fifu, c01, c03

WITNESSES = ("whole-raised", "component-complete", "component-raised", "no-norms")


def cases(tier):
    out = []
    for c in c01.configs(tier):
        if tier == "quick" and c.get("bo") == ">":
            continue
        if c["n"] >= 30:  # every length of a long file is a path of its own
            continue
        for mode in ("eager", "mmap", "parts"):
            out.append(dict(c, name=fifu.cfg_name(c) + "-" + mode, mode=mode, weight=c["n"] + 2 * (mode == "parts")))
    return out


def run(E, case):
    P = fifu.build(E, case)
    p = E.path("e.fifu")
    P.emb.write(p)
    norms_at = end_of_storage(E, P, p) if P.norms is not None else None
    if P.metadata is None:
        cut = E.int("cut", 0, soft=400)
    else:  # counted from the end: the model leaves the length of the TOML text open
        cut = E.file_size(p) - E.int("cut_tail", 1, soft=400)
        E.assume(cut >= 0)
    q = E.truncated(p, E.path("cut.fifu"), cut)
    if case["mode"] == "parts":
        L = c03.loaders(E)
        have = [P.vkind, "vocab", "storage", "array" if P.skind == "array" else "quant"]
        have += ["norms"] * (P.norms is not None) + ["meta"] * (P.metadata is not None)
        for h in have:
            for mm in ((False, True) if h in ("storage", "array", "quant") else (False, )):
                r = E.attempt(L[h], q, mmap=True) if mm else E.attempt(L[h], q)
                if r.exc is not None:
                    E.note("component-raised")
                    continue
                E.note("component-complete")
                what = "cut file, load of " + h
                if h == "norms":
                    fifu.check_norms(E, P, r.value, what)
                elif h == "meta":
                    fifu.check_meta(E, P, r.value, what)
                elif h in ("storage", "array", "quant"):
                    fifu.check_storage(E, P, r.value, what)
                else:
                    fifu.check_vocab(E, P, r.value, what)
        return
    r = E.attempt(E.mod("finalfusion").load_finalfusion, q, mmap=case["mode"] == "mmap")
    if r.exc is not None:
        E.note("whole-raised")
        return
    e = r.value
    E.note("whole-returned")
    fifu.check_vocab(E, P, e.vocab, "cut file")
    fifu.check_storage(E, P, e.storage, "cut file")
    fifu.check_meta(E, P, e.metadata, "cut file")
    if P.norms is not None and e.norms is None:
        E.note("no-norms")
        E.check(E.eq(cut, norms_at), "norms are only left out when the cut is exactly in front of them")
    else:
        fifu.check_norms(E, P, e.norms, "cut file")


def end_of_storage(E, P, p):
    """offset of the norms chunk, by the recorded lengths"""
    ids = fifu.chunk_ids(P)
    pos = 12 + 4 * len(ids)
    with E.open(p, "rb") as f:
        for cid in ids[:-1]:
            f.seek(pos)
            _, n = E.unpack("<IQ", f.read(12))
            pos = pos + 12 + n
    return pos
