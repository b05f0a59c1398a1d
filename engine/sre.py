"""A small backtracking regular-expression matcher over symbolic text."""
import re as _re
import re._constants as C
import re._parser as P

from . import rope
from .core import Unsupported, And, Or, Not
from .rope import SymStr, lift_str, in_ranges, ranges, Tok

ASCII_WS = ranges([9, 10, 11, 12, 13, 32])
UNI_WS = rope.WS_R
DIGIT_A = [[48, 57]]
WORD_A = [[48, 57], [65, 90], [95, 95], [97, 122]]

_cache = {}


def cat_ranges(cat, flags, isbytes):
    ascii_ = bool(flags & _re.ASCII) or isbytes
    name = str(cat)
    if name.endswith("_SPACE"):
        return ASCII_WS if ascii_ else UNI_WS
    if name.endswith("_DIGIT"):
        if ascii_:
            return DIGIT_A
        if "d" not in _cache:
            _cache["d"] = ranges([c for c in range(0x110000) if chr(c).isdecimal()])
        return _cache["d"]
    if name.endswith("_WORD"):
        if ascii_:
            return WORD_A
        if "w" not in _cache:
            _cache["w"] = ranges([c for c in range(0x110000) if chr(c).isalnum() or c == 95])
        return _cache["w"]
    raise Unsupported("regex category %s" % name)


class M:
    def __init__(self, items, flags, isbytes):
        self.items = items
        self.flags = flags
        self.isbytes = isbytes
        self.groups = {}

    def test(self, item, pred_ranges, neg):
        if isinstance(item, Tok):
            # opaque number text contains none of the usual separators
            rope._tok_inner(item, pred_ranges)
            return neg
        r = in_ranges(item, pred_ranges)
        r = r if isinstance(r, bool) else bool(r)
        return r != neg

    def one(self, op, av, i):
        """does the single-character node match at i"""
        if i >= len(self.items):
            return False
        it = self.items[i]
        if op is C.LITERAL:
            return self.test(it, self.case([[av, av]]), False)
        if op is C.NOT_LITERAL:
            return self.test(it, self.case([[av, av]]), True)
        if op is C.ANY:
            if self.flags & _re.DOTALL:
                return True
            return self.test(it, [[10, 10]], True)
        if op is C.IN:
            neg = False
            rs = []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    rs.append([a, a])
                elif o is C.RANGE:
                    rs.append([a[0], a[1]])
                elif o is C.CATEGORY:
                    r = cat_ranges(a, self.flags, self.isbytes)
                    if "NOT_" in str(a):
                        r = complement(r)
                    rs.extend(r)
                else:
                    raise Unsupported("regex set item")
            return self.test(it, self.case(rs), neg)
        raise Unsupported("regex op %s" % op)

    def case(self, rs):
        if self.flags & _re.IGNORECASE:
            raise Unsupported("regex IGNORECASE")
        return rs

    def seq(self, nodes, k, i, cont):
        if k == len(nodes):
            return cont(i)
        op, av = nodes[k]
        nxt = lambda j: self.seq(nodes, k + 1, j, cont)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if self.one(op, av, i):
                return nxt(i + 1)
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
            lo, hi, body = av
            body = list(body)
            if op is C.MAX_REPEAT:
                def rep(n, j):
                    if n < hi:
                        r = self.seq(body, 0, j, lambda q: rep(n + 1, q) if q > j else None)
                        if r is not None:
                            return r
                    return nxt(j) if n >= lo else None
                return rep(0, i)
            if op is C.MIN_REPEAT:
                def rep(n, j):
                    if n >= lo:
                        r = nxt(j)
                        if r is not None:
                            return r
                    if n < hi:
                        return self.seq(body, 0, j, lambda q: rep(n + 1, q) if q > j else None)
                    return None
                return rep(0, i)
        if op is C.SUBPATTERN:
            gid, add, dele, body = av
            old = self.groups.get(gid)
            oldf = self.flags
            self.flags = (self.flags | add) & ~dele

            def done(j):
                if gid is not None:
                    self.groups[gid] = (i, j)
                return nxt(j)
            r = self.seq(list(body), 0, i, done)
            self.flags = oldf
            if r is None and gid is not None:
                if old is None:
                    self.groups.pop(gid, None)
                else:
                    self.groups[gid] = old
            return r
        if op is C.BRANCH:
            for b in av[1]:
                r = self.seq(list(b), 0, i, nxt)
                if r is not None:
                    return r
            return None
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is C.AT_END_STRING:
                ok = i == len(self.items)
            elif av is C.AT_END:
                ok = i == len(self.items) or (i == len(self.items) - 1 and self.one(C.LITERAL, 10, i))
            else:
                raise Unsupported("regex anchor")
            return nxt(i) if ok else None
        raise Unsupported("regex op %s" % op)


def complement(rs):
    out, p = [], 0
    for a, b in rs:
        if p < a:
            out.append([p, a - 1])
        p = b + 1
    out.append([p, 0x10FFFF])
    return out


class Match:
    def __init__(self, items, s, e, groups, n):
        self.items, self.s, self.e, self.g, self.n = items, s, e, groups, n

    def _one(self, k):
        if k == 0:
            return SymStr(self.items[self.s:self.e])
        if k not in self.g:
            return None
        a, b = self.g[k]
        return SymStr(self.items[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def groups(self, default=None):
        return tuple(self._one(k) if k in self.g else default for k in range(1, self.n + 1))

    def start(self, k=0):
        return self.s if k == 0 else self.g[k][0]

    def end(self, k=0):
        return self.e if k == 0 else self.g[k][1]

    def span(self, k=0):
        return (self.start(k), self.end(k))

    __getitem__ = _one


def method(pat, name):
    isbytes = isinstance(pat.pattern, bytes)
    if isbytes:
        raise Unsupported("bytes regex on symbolic data")
    tree = list(P.parse(pat.pattern, pat.flags & ~_re.UNICODE if pat.flags & _re.ASCII else pat.flags & ~_re.DEBUG))

    def at(items, i, full=False):
        m = M(items, pat.flags, isbytes)
        e = m.seq(tree, 0, i, lambda j: j if (not full or j == len(items)) else None)
        if e is None:
            return None
        return Match(items, i, e, m.groups, pat.groups)

    def search_from(items, i):
        while i <= len(items):
            m = at(items, i)
            if m is not None:
                return m
            i += 1
        return None

    def f_match(s):
        return at(list(lift_str(s).items), 0)

    def f_fullmatch(s):
        return at(list(lift_str(s).items), 0, True)

    def f_search(s):
        return search_from(list(lift_str(s).items), 0)

    def f_finditer(s):
        items = list(lift_str(s).items)
        i = 0
        while i <= len(items):
            m = search_from(items, i)
            if m is None:
                return
            yield m
            i = m.e if m.e > m.s else m.e + 1

    def f_findall(s):
        out = []
        for m in f_finditer(s):
            out.append(m.group() if pat.groups == 0 else (m.group(1) if pat.groups == 1 else m.groups("")))
        return out

    def f_split(s, maxsplit=0):
        items = list(lift_str(s).items)
        out, p = [], 0
        for m in f_finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            if m.e == m.s:
                if m.s == 0 or m.s == len(items):
                    continue
            out.append(SymStr(items[p:m.s]))
            for g in m.groups():
                out.append(g)
            p = m.e
        out.append(SymStr(items[p:]))
        return out

    def f_sub(repl, s, count=0):
        if not isinstance(repl, (str, SymStr)) or (isinstance(repl, str) and "\\" in repl):
            raise Unsupported("regex replacement")
        items = list(lift_str(s).items)
        out, p, n = [], 0, 0
        for m in f_finditer(s):
            if count and n >= count:
                break
            out.extend(items[p:m.s])
            out.extend(lift_str(repl).items)
            p = m.e
            n += 1
        out.extend(items[p:])
        return SymStr(out)

    return {"match": f_match, "fullmatch": f_fullmatch, "search": f_search, "finditer": f_finditer,
            "findall": f_findall, "split": f_split, "sub": f_sub}[name]
