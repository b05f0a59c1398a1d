"""Reference definitions shared by the harnesses (written from the formats'
documentation, not from the package)."""

FNV64_INIT = 0xcbf29ce484222325


def ngrams(s, lo, hi):
    """n-grams of s (already bracketed), left to right, long to short"""
    out = []
    n = len(s)
    for i in range(n):
        for k in range(min(hi, n), lo - 1, -1):
            if i + k <= n:
                out.append(s[i:i + k])
    return out


def bracket(s):
    return "<" + s + ">"


def fifu_hash(E, ngram):
    """64-bit FNV-1a of the character count (8 bytes LE) and every code point
    (4 bytes LE)"""
    n = len(ngram)
    data = [(n >> (8 * i)) & 0xff for i in range(8)]
    for c in E.cps(ngram):
        data += [(c >> (8 * i)) & 0xff for i in range(4)]
    return E.fnv64(data, FNV64_INIT)


def ft_hash(E, ngram):
    """fastText's Dictionary::hash of the UTF-8 bytes"""
    return E.ft32(E.byte_list(E.utf8(ngram)))
