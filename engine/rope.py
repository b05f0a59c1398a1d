"""Symbolic strings and byte strings (ropes)."""
import re as _re

import z3

from . import core
from .core import (SymInt, SymBool, SymReal, Unsupported, BoundExceeded, And, Or, Not,
                   mkbool, mkint, mkbv, ctx, int_expr, ite_int, as_bool_expr)

WS = [c for c in range(0x110000) if chr(c).isspace()]
BWS = [0x20, 9, 10, 11, 12, 13]


def ranges(codes):
    out = []
    for c in sorted(set(codes)):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


WS_R = ranges(WS)
BWS_R = ranges(BWS)
LINE_R = ranges([c for c in range(0x3000) if len(("a" + chr(c) + "b").splitlines()) == 2])


def in_ranges(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    return Or(*[(c == a) if a == b else And(c >= a, c <= b) for a, b in rs])


def utf8_len(c):
    if isinstance(c, int):
        return len(chr(c).encode("utf-8", "surrogatepass"))
    k = _u8key(c)
    if k in ctx().memo:
        return ctx().memo[k][0]
    return mkint(z3.If(as_bool_expr(c < 0x80), 1, z3.If(as_bool_expr(c < 0x800), 2, z3.If(
        as_bool_expr(c < 0x10000), 3, z3.IntVal(4)))))


def _u8key(c):
    return ("u8len", (c.bv if c.bv is not None else c.e).get_id())


def utf8_len_fork(c):
    if isinstance(c, int):
        return utf8_len(c)
    k = _u8key(c)
    m = ctx().memo
    if k not in m:
        n = 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
        m[k] = (n, c)
    return m[k][0]


def same_term(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        if a.bv is not None and b.bv is not None:
            return a.bv.eq(b.bv)
        return a._e is not None and b._e is not None and a._e.eq(b._e)
    return False


# ------------------------------------------------------------------ tokens


class Tok:
    """Opaque piece of text."""

    def eq(self, other):
        raise NotImplementedError


class Atom(Tok):
    """An arbitrary string (possibly empty) of symbolic length."""

    def __init__(self, name, sid=None, nchars=None, nbytes=None):
        c = ctx()
        self.name = name
        if sid is None:
            sid = z3.Int(name + ".sid")
            nc = z3.Int(name + ".nchars")
            nb = z3.Int(name + ".nbytes")
            c.add(z3.And(nc >= 0, nb >= nc, nb <= 4 * nc))
            nchars, nbytes = SymInt(nc), SymInt(nb)
        self.sid = sid
        self.nchars = nchars
        self.nbytes = nbytes

    def eq(self, o):
        if self is o:
            return True
        e = self.sid == o.sid
        c = ctx()
        key = ("atomeq", self.sid.get_id(), o.sid.get_id())
        if key not in c.memo:
            c.memo[key] = (self, o)
            c.add(z3.Implies(e, z3.And(int_expr(self.nchars) == int_expr(o.nchars),
                                       int_expr(self.nbytes) == int_expr(o.nbytes))))
            c.add(z3.Implies(z3.And(int_expr(self.nbytes) == 0, int_expr(o.nbytes) == 0), e))
        return mkbool(e)

    def __repr__(self):
        return "Atom(%s)" % self.name


class IntText(Tok):
    def __init__(self, v):
        self.v = v
        n = z3.IntVal(20)
        ve = int_expr(v)
        for d in range(19, 0, -1):
            n = z3.If(ve < 10 ** d, d, n)
        if not ctx().must(ve >= 0) and bool(mkbool(ve < 0)):
            raise Unsupported("text of a negative symbolic int")
        self.nchars = self.nbytes = mkint(n)

    def eq(self, o):
        return self.v == o.v


class FloatText(Tok):
    """Shortest round-tripping decimal text of a float (contract of
    str/repr and of the text-to-float conversion)."""

    def __init__(self, v, digits=None):
        self.v = v
        self.digits = digits
        c = ctx()
        key = ("ftext", v.e.get_id() if isinstance(v, SymReal) and v.e is not None else repr(v))
        if key not in c.memo:
            n = z3.Int(c.fresh("ftextlen"))
            c.add(z3.And(n >= 1, n <= 40))
            c.memo[key] = (n, v)
        self.nchars = self.nbytes = SymInt(c.memo[key][0])

    def eq(self, o):
        return self.v == o.v


class PartialTok(Tok):
    """A proper, non-empty part of the text of a number."""

    def __init__(self, tok, n):
        self.tok = tok
        self.nchars = self.nbytes = n

    def eq(self, o):
        if self.tok is o.tok:
            return self.nbytes == o.nbytes
        raise Unsupported("compare partial tokens")


# ------------------------------------------------------------------ SymStr


def lift_str(s):
    if isinstance(s, SymStr):
        return s
    if isinstance(s, str):
        return SymStr([ord(c) for c in s])
    raise TypeError("expected str, got %s" % type(s).__name__)


def is_strlike(x):
    return isinstance(x, (str, SymStr))


def simp_str(x):
    """SymStr -> native str if it has no symbolic part."""
    return x


class SymStr:
    __slots__ = ("items", )

    def __init__(self, items):
        self.items = tuple(items)

    def __hash__(self):
        return 99991

    def __repr__(self):
        return "SymStr(%s)" % ",".join(
            chr(i) if isinstance(i, int) else (repr(i) if isinstance(i, Tok) else str(i.bv)) for i in self.items)

    __str__ = None

    def concrete(self):
        if all(isinstance(i, int) for i in self.items):
            return "".join(map(chr, self.items))
        return None

    def chars(self):
        for i in self.items:
            if isinstance(i, Tok):
                raise Unsupported("character access to opaque text")
        return self.items

    def sym_len(self):
        n = 0
        for i in self.items:
            n = n + (i.nchars if isinstance(i, Tok) else 1)
        return n

    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        if any(not isinstance(i, Tok) for i in self.items):
            return True
        n = self.sym_len()
        return bool(n != 0)

    def __iter__(self):
        for c in self.chars():
            yield SymStr((c, ))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start in (None, 0) and k.stop is None and k.step in (None, 1):
                return self
            cs = self.chars()
            return SymStr(cs[_nslice(k)])
        cs = self.chars()
        k = k if isinstance(k, int) else k.__index__()
        if not -len(cs) <= k < len(cs):
            raise IndexError("string index out of range")
        return SymStr((cs[k], ))

    # -- comparison
    def _eq(self, o):
        if isinstance(o, str):
            o = lift_str(o)
        if not isinstance(o, SymStr):
            return False
        a, b = self.items, o.items
        at, bt = any(isinstance(i, Tok) for i in a), any(isinstance(i, Tok) for i in b)
        if not at and not bt:
            if len(a) != len(b):
                return False
            conds = []
            for x, y in zip(a, b):
                if same_term(x, y):
                    continue
                r = x == y
                if r is False:
                    return False
                conds.append(r)
            return And(*conds)
        if len(a) == len(b) and all(type(x) is type(y) or (not isinstance(x, Tok) and not isinstance(y, Tok))
                                    for x, y in zip(a, b)):
            return And(*[(x.eq(y) if isinstance(x, Tok) else (True if same_term(x, y) else x == y))
                         for x, y in zip(a, b)])
        if not a or not b:
            n = (o if not a else self).sym_len()
            return n == 0 if isinstance(n, int) else mkbool(int_expr(n) == 0)
        # an arbitrary string against an explicit one: unknown, but fixed
        la, lb = self.sym_len(), o.sym_len()
        c = ctx()
        key = ("streq", repr(self), repr(o))
        if key not in c.memo:
            c.imprecise.append("equality of opaque and explicit text")
            c.memo[key] = z3.Bool(c.fresh("streq"))
        return And(SymBool(c.memo[key]), mkbool(int_expr(la) == int_expr(lb)))

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return Not(self._eq(o))

    def _lt(self, o, orequal):
        a, b = self.chars(), lift_str(o).chars()
        for x, y in zip(a, b):
            if same_term(x, y):
                continue
            if x == y:
                continue
            return x < y
        return len(a) <= len(b) if orequal else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return lift_str(o)._lt(self, False)

    def __ge__(self, o):
        return lift_str(o)._lt(self, True)

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return SymStr(self.items + lift_str(o).items)

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return SymStr(lift_str(o).items + self.items)

    def __mul__(self, n):
        return SymStr(self.items * (n if isinstance(n, int) else n.__index__()))

    __rmul__ = __mul__

    def __mod__(self, args):
        return str_mod(self, args)

    def __rmod__(self, o):
        if isinstance(o, str):
            return str_mod(o, self)
        return NotImplemented

    def __contains__(self, x):
        return bool(self.find(x) >= 0)

    # -- encoding
    def encode(self, encoding="utf-8", errors="strict"):
        enc = _norm_enc(encoding)
        segs = []
        if enc == "utf-8-sig":
            segs.append(Lit(b"\xef\xbb\xbf"))
            enc = "utf-8"
        for i in self.items:
            if isinstance(i, Tok):
                if enc != "utf-8" and isinstance(i, Atom):
                    if not ctx().must(int_expr(i.nbytes) == int_expr(i.nchars)):
                        if not bool(mkbool(int_expr(i.nbytes) == int_expr(i.nchars))):
                            raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range(128)")
                segs.append(TokS(i, 0, i.nbytes))
            elif isinstance(i, int):
                if enc == "utf-8":
                    if 0xD800 <= i <= 0xDFFF and errors != "surrogatepass":
                        if errors == "strict":
                            raise UnicodeEncodeError(enc, chr(i), 0, 1, "surrogates not allowed")
                        raise Unsupported("encode errors=")
                    segs.append(Lit(chr(i).encode("utf-8", "surrogatepass")))
                else:
                    segs.append(Lit(chr(i).encode(enc, errors if isinstance(errors, str) else "strict")))
            else:
                if enc == "utf-8":
                    segs.append(Chr(i))
                elif i < (0x80 if enc == "ascii" else 0x100):
                    if enc == "ascii":
                        segs.append(Chr(i))
                    else:
                        raise Unsupported("latin-1")
                else:
                    if errors == "strict":
                        raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
                    if errors == "ignore":
                        continue
                    segs.append(Lit(b"?"))
        return SymBytes(segs)

    # -- methods
    def _strip(self, chars, left, right):
        if chars is None:
            rs = WS_R
        else:
            cs = lift_str(chars).chars()
            if not all(isinstance(c, int) for c in cs):
                raise Unsupported("strip with symbolic characters")
            rs = ranges(cs)
        items = list(self.items)
        if left:
            while items:
                h = items[0]
                if isinstance(h, Tok):
                    _tok_edge(h, rs)
                    break
                if in_ranges(h, rs):
                    items.pop(0)
                else:
                    break
        if right:
            while items:
                h = items[-1]
                if isinstance(h, Tok):
                    _tok_edge(h, rs)
                    break
                if in_ranges(h, rs):
                    items.pop()
                else:
                    break
        return SymStr(items)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit if isinstance(maxsplit, int) else maxsplit.__index__()
        if sep is None:
            out, cur = [], []
            items = list(self.items)
            k = 0
            while k < len(items):
                it = items[k]
                if isinstance(it, Tok):
                    _tok_inner(it, WS_R)
                    cur.append(it)
                elif in_ranges(it, WS_R):
                    if cur:
                        out.append(SymStr(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) == maxsplit:
                            rest = SymStr(items[k:]).lstrip()
                            if rest.items:
                                out.append(rest)
                            return out
                else:
                    cur.append(it)
                k += 1
            if cur:
                out.append(SymStr(cur))
            return out
        return [SymStr(p) for p in _split_sep(self.items, lift_str(sep).items, maxsplit)]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        rs = lift_str(sep).items[::-1] if sep is not None else None
        if rs is None:
            r = SymStr(self.items[::-1]).split(None, maxsplit)
            return [SymStr(x.items[::-1]) for x in r[::-1]]
        r = _split_sep(self.items[::-1], rs, maxsplit)
        return [SymStr(tuple(x)[::-1]) for x in r[::-1]]

    def partition(self, sep):
        p = _split_sep(self.items, lift_str(sep).items, 1)
        if len(p) == 1:
            return self, SymStr(()), SymStr(())
        return SymStr(p[0]), lift_str(sep), SymStr(p[1])

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return SymStr(()), SymStr(()), self
        return p[0], lift_str(sep), p[1]

    def splitlines(self, keepends=False):
        out, cur = [], []
        items = list(self.items)
        k = 0
        while k < len(items):
            it = items[k]
            if not isinstance(it, Tok) and in_ranges(it, LINE_R):
                end = [it]
                if it == 13 and k + 1 < len(items) and not isinstance(items[k + 1], Tok) and items[k + 1] == 10:
                    end.append(items[k + 1])
                    k += 1
                out.append(SymStr(cur + (end if keepends else [])))
                cur = []
            else:
                if isinstance(it, Tok):
                    _tok_inner(it, LINE_R)
                cur.append(it)
            k += 1
        if cur:
            out.append(SymStr(cur))
        return out

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not is_strlike(p):
                raise TypeError("sequence item: expected str instance, %s found" % type(p).__name__)
            if not first:
                out.extend(self.items)
            first = False
            out.extend(lift_str(p).items)
        return SymStr(out)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return Or(*[self.startswith(x) for x in p])
        p = lift_str(p)
        if start or end is not None:
            return self[start:end].startswith(p)
        return self._prefix(self.items, p.items)

    @staticmethod
    def _prefix(a, b):
        if len(b) == 0:
            return True
        if any(isinstance(i, Tok) for i in a[:len(b)]) or any(isinstance(i, Tok) for i in b):
            if a and isinstance(a[0], (IntText, FloatText)) and isinstance(b[0], int) and chr(b[0]) not in "0123456789+-.einfa":
                return False
            raise Unsupported("prefix of opaque text")
        if len(a) < len(b):
            return False
        return And(*[True if same_term(x, y) else x == y for x, y in zip(a, b)])

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return Or(*[self.endswith(x) for x in p])
        p = lift_str(p)
        if start or end is not None:
            return self[start:end].endswith(p)
        return self._prefix(self.items[::-1], p.items[::-1])

    def removeprefix(self, p):
        if self.startswith(p):
            return SymStr(self.items[len(lift_str(p).items):])
        return self

    def removesuffix(self, p):
        n = len(lift_str(p).items)
        if n and self.endswith(p):
            return SymStr(self.items[:-n])
        return self

    def find(self, sub, start=None, end=None):
        sub = lift_str(sub)
        s = self[start:end] if (start is not None or end is not None) else self
        base = start or 0
        if base < 0:
            base = max(0, len(self) + base)
        pos = base
        n = len(sub.items)
        for k in range(len(s.items) - n + 1):
            if isinstance(s.items[k], Tok):
                _tok_inner_lit(s.items[k], sub)
            elif self._prefix(s.items[k:], sub.items):
                return pos
            pos = pos + (s.items[k].nchars if isinstance(s.items[k], Tok) else 1)
        if n == 0:
            return base
        for k in range(max(0, len(s.items) - n + 1), len(s.items)):
            if isinstance(s.items[k], Tok):
                _tok_inner_lit(s.items[k], sub)
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, start=None, end=None):
        if start is not None or end is not None:
            raise Unsupported("rfind range")
        sub = lift_str(sub)
        cs = self.chars()
        n = len(sub.items)
        for k in range(len(cs) - n, -1, -1):
            if self._prefix(cs[k:], sub.items):
                return k
        return -1

    def rindex(self, sub):
        r = self.rfind(sub)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        return len(_split_sep(self.items, lift_str(sub).items, -1)) - 1

    def replace(self, old, new, count=-1):
        p = _split_sep(self.items, lift_str(old).items, count)
        return lift_str(new).join([SymStr(x) for x in p])

    def isspace(self):
        if not self.items:
            return False
        return And(*[in_ranges(c, WS_R) for c in self.chars()])

    def isdigit(self):
        if len(self.items) == 1 and isinstance(self.items[0], IntText):
            return True
        c = self.concrete()
        if c is not None:
            return c.isdigit()
        raise Unsupported("isdigit")

    def isascii(self):
        return And(*[c < 128 for c in self.chars()])

    def _cased(self, name):
        """lower, upper, ...: ASCII letters and characters without case; the others have no model"""
        c = self.concrete()
        if c is not None:
            return lift_str(getattr(c, name)())
        a, d = ((97, 122), -32) if name == "upper" else ((65, 90), 32)
        out = []
        for c in self.chars():
            if isinstance(c, int) and (c < 128 or not in_ranges(c, CASED_R)):
                out.append(c + d if a[0] <= c <= a[1] else c)
            elif bool(in_ranges(c, [a])):
                out.append(c + d)
            elif bool(c < 128) or not bool(in_ranges(c, CASED_R)):
                out.append(c)
            else:
                raise Unsupported("str.%s on symbolic text" % name)
        return SymStr(out)

    def lower(self):
        return self._cased("lower")

    def casefold(self):
        return self._cased("casefold")

    def upper(self):
        return self._cased("upper")

    def format(self, *a, **k):
        c = self.concrete()
        if c is None:
            raise Unsupported("symbolic format string")
        return str_format(c, a, k)

    def ljust(self, n, fill=" "):
        return self + SymStr(lift_str(fill).items * max(0, n - len(self)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            c = self.concrete()

            def meth(*a, **k):
                if c is None:
                    raise Unsupported("str.%s on symbolic text" % name)
                a = [x.concrete() if isinstance(x, SymStr) else x for x in a]
                r = getattr(c, name)(*a, **k)
                return lift_str(r) if isinstance(r, str) else r

            return meth
        raise AttributeError("'str' object has no attribute '%s'" % name)


def _cased_ranges():
    """a superset of the non-ASCII characters with case mappings (gaps closed)"""
    out = []
    for c in range(128, 0x110000):
        x = chr(c)
        if x.lower() != x or x.upper() != x or x.casefold() != x:
            if out and c - out[-1][1] < 256:
                out[-1][1] = c
            else:
                out.append([c, c])
    return [tuple(r) for r in out]


class _Cased:
    r = None

    def __iter__(self):
        if self.r is None:
            _Cased.r = _cased_ranges()
        return iter(self.r)


CASED_R = _Cased()


def _nslice(k):
    f = lambda v: v if v is None or isinstance(v, int) else v.__index__()
    return slice(f(k.start), f(k.stop), f(k.step))


NUMCHARS = ranges([ord(c) for c in "0123456789+-.einfat"])


def _tok_edge(tok, rs):
    """The first/last character of tok is not in rs (numbers), or unknown."""
    if isinstance(tok, (IntText, FloatText, PartialTok)):
        for a, b in rs:
            for x, y in NUMCHARS:
                if a <= y and x <= b:
                    raise Unsupported("stripping digits of symbolic numbers")
        return
    if isinstance(tok, Atom):
        _atom_nows(tok)
        return


def _atom_nows(tok):
    # atoms are used only where the harness excludes whitespace
    if not getattr(tok, "no_ws", False):
        raise Unsupported("whitespace handling of an arbitrary string")


def _tok_inner(tok, rs):
    _tok_edge(tok, rs)


def _tok_inner_lit(tok, sub):
    cs = sub.items
    if isinstance(tok, (IntText, FloatText, PartialTok)):
        if any(isinstance(c, int) and not in_ranges(c, NUMCHARS) for c in cs):
            return
        raise Unsupported("searching inside symbolic numbers")
    if isinstance(tok, Atom) and getattr(tok, "no_ws", False):
        if any(isinstance(c, int) and in_ranges(c, WS_R) for c in cs):
            return
    raise Unsupported("searching inside an arbitrary string")


def _split_sep(items, sep, maxsplit):
    if len(sep) == 0:
        raise ValueError("empty separator")
    out, cur = [], []
    k = 0
    n = len(sep)
    while k < len(items):
        it = items[k]
        if isinstance(it, Tok):
            _tok_inner_lit(it, SymStr(sep))
            cur.append(it)
            k += 1
            continue
        if (maxsplit < 0 or len(out) < maxsplit) and k + n <= len(items) \
                and not any(isinstance(x, Tok) for x in items[k:k + n]) \
                and SymStr._prefix(items[k:k + n], sep):
            out.append(cur)
            cur = []
            k += n
            continue
        cur.append(it)
        k += 1
    out.append(cur)
    return out


def _norm_enc(e):
    if isinstance(e, SymStr):
        e = e.concrete()
    e = (e or "utf-8").lower().replace("_", "-")
    if e in ("utf8", "utf-8", "u8"):
        return "utf-8"
    if e in ("ascii", "us-ascii"):
        return "ascii"
    if e in ("latin-1", "latin1", "iso-8859-1"):
        return "latin-1"
    if e in ("utf-8-sig", ):
        return "utf-8-sig"
    raise Unsupported("encoding " + e)


def to_text(x):
    """str(x) for every value the runtime knows."""
    if isinstance(x, (SymStr, str)):
        return x
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymInt):
        if x.bv is not None:
            x = mkint(x.e)
            if isinstance(x, int):
                return str(x)
        if not ctx().must(x.e >= 0) and bool(x < 0):
            return SymStr((ord("-"), IntText(-x)))
        return SymStr((IntText(x), ))
    if isinstance(x, SymReal):
        return SymStr((FloatText(x), ))
    if hasattr(x, "_sym_str"):
        return x._sym_str()
    if isinstance(x, (SymBytes, )):
        return "b'...'"
    if isinstance(x, (list, tuple, set, dict)):
        try:
            return str(x)
        except TypeError:
            return "<container>"
    m = type(x).__dict__.get("__str__")
    return str(x)


def fmt_value(x, conv, spec):
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if conv == "r" or conv == ord("r"):
        if isinstance(x, (SymStr, SymBytes, SymInt, SymReal)):
            return "<repr>" if not isinstance(x, (SymInt, SymReal)) else to_text(x)
        return repr(x)
    if isinstance(x, (SymStr, SymInt, SymReal, SymBool)):
        if spec in ("", "s", "d", None):
            return to_text(x)
        if isinstance(x, SymStr) and x.concrete() is not None:
            return format(x.concrete(), spec)
        if isinstance(x, SymReal):
            return float_text(x, spec)
        raise Unsupported("format spec %r" % spec)
    if isinstance(x, SymBytes) or getattr(x, "_is_symnd", False):
        return to_text(x)
    if isinstance(x, (str, int, float)) or spec:
        return format(x, spec or "")
    return to_text(x)


_FSPEC = _re.compile(r"([-+ ]?)(#?)(?:\.(\d+))?([eEfFgG]?)$")


def float_text(x, spec):
    """the text of a float in a given format; with fewer digits than a
    float32 needs, reading it gives another number"""
    m = _FSPEC.match(spec)
    if m is None or m.group(1) in ("+", " "):
        raise Unsupported("format spec %r" % spec)
    kind = m.group(4).lower()
    if not kind and m.group(3) is None:
        return to_text(x)
    prec = int(m.group(3)) if m.group(3) is not None else 6
    t = FloatText(x, digits=spec)
    t.lossy = kind == "f" or prec < (8 if kind == "e" else 9)
    return SymStr((t, ))


def concat_text(parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        out.extend(lift_str(p).items)
    return SymStr(out)


_PCT = _re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])")


def str_mod(fmt, args):
    if isinstance(fmt, SymStr):
        f = fmt.concrete()
        if f is None:
            raise Unsupported("symbolic % format")
        fmt = f
    if not isinstance(args, (tuple, dict)):
        args = (args, )
    if not contains_sym(args):
        return fmt % args
    out, pos, ai = [], 0, 0
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = args[m.group(1)]
        else:
            v = args[ai]
            ai += 1
        if m.group(2) or m.group(3) or m.group(4):
            if not contains_sym(v):
                out.append(m.group(0) % v)
                continue
            if isinstance(v, SymReal) and not m.group(3):
                out.append(float_text(v, (m.group(2) or "") + ("." + m.group(4) if m.group(4) else "") + m.group(5)))
                continue
            raise Unsupported("format width")
        if isinstance(v, SymReal) and m.group(5) in "eEfFgG":
            out.append(float_text(v, m.group(5)))
            continue
        out.append(fmt_value(v, "r" if m.group(5) == "r" else None, ""))
    out.append(fmt[pos:])
    if not isinstance(args, dict) and ai != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return concat_text(out)


def str_format(fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        m = _re.match(r"^(\w+)(.*)$", field)
        key, rest = m.group(1), m.group(2)
        v = args[int(key)] if key.isdigit() else kwargs[key]
        if rest:
            for part in _re.findall(r"\.(\w+)|\[(\w+)\]", rest):
                v = getattr(v, part[0]) if part[0] else v[int(part[1]) if part[1].isdigit() else part[1]]
        out.append(fmt_value(v, conv, spec or ""))
    return concat_text(out)


def contains_sym(x, depth=0):
    if isinstance(x, (SymInt, SymReal, SymBool, SymStr, SymBytes)) or getattr(type(x), "_is_sym", False):
        return True
    if depth < 3:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(contains_sym(i, depth + 1) for i in x)
        if isinstance(x, dict):
            return any(contains_sym(i, depth + 1) for i in x) or any(contains_sym(i, depth + 1) for i in x.values())
    return False


# ------------------------------------------------------------------- bytes


class Seg:
    pass


class Lit(Seg):
    __slots__ = ("b", )

    def __init__(self, b):
        self.b = bytes(b)

    def length(self):
        return len(self.b)

    def split(self, n):
        n = n if isinstance(n, int) else n.__index__()
        return Lit(self.b[:n]), Lit(self.b[n:])

    def __repr__(self):
        return "Lit(%r)" % self.b


class Num(Seg):
    """The bytes of one number: kind 'i' (two's complement integer) or 'f'
    (IEEE float of the given size); little-endian unless swapped."""
    __slots__ = ("kind", "v", "size", "swapped")

    def __init__(self, kind, v, size, swapped=False):
        self.kind, self.v, self.size, self.swapped = kind, v, size, swapped

    def length(self):
        return self.size

    def split(self, n):
        n = n if isinstance(n, int) else n.__index__()
        return NumB(self, 0, n), NumB(self, n, self.size)

    def __repr__(self):
        return "Num(%s%d %s%s)" % (self.kind, self.size, self.v, " swapped" if self.swapped else "")


class NumB(Seg):
    __slots__ = ("num", "i", "j")

    def __init__(self, num, i, j):
        self.num, self.i, self.j = num, i, j

    def length(self):
        return self.j - self.i

    def split(self, n):
        n = n if isinstance(n, int) else n.__index__()
        return NumB(self.num, self.i, self.i + n), NumB(self.num, self.i + n, self.j)

    def __repr__(self):
        return "NumB(%r[%s:%s])" % (self.num, self.i, self.j)


class Fill(Seg):
    """n zero bytes, n symbolic."""
    __slots__ = ("n", )

    def __init__(self, n):
        self.n = n

    def length(self):
        return self.n

    def split(self, n):
        return Fill(n), Fill(self.n - n)

    def __repr__(self):
        return "Fill(%s)" % (self.n, )


class Chr(Seg):
    __slots__ = ("c", "_len")

    def __init__(self, c):
        self.c = c
        self._len = None

    def length(self):
        if not isinstance(self._len, int):
            self._len = utf8_len(self.c)
        return self._len

    def split(self, n):
        k = utf8_len_fork(self.c)
        n = n if isinstance(n, int) else n.__index__()
        return ChrB(self.c, k, 0, n), ChrB(self.c, k, n, k)

    def __repr__(self):
        return "Chr(%s)" % (self.c, )


class ChrB(Seg):
    __slots__ = ("c", "n", "i", "j")

    def __init__(self, c, n, i, j):
        self.c, self.n, self.i, self.j = c, n, i, j

    def length(self):
        return self.j - self.i

    def split(self, n):
        n = n if isinstance(n, int) else n.__index__()
        return ChrB(self.c, self.n, self.i, self.i + n), ChrB(self.c, self.n, self.i + n, self.j)

    def __repr__(self):
        return "ChrB(%s %d[%d:%d])" % (self.c, self.n, self.i, self.j)


class TokS(Seg):
    __slots__ = ("tok", "off", "n")

    def __init__(self, tok, off, n):
        self.tok, self.off, self.n = tok, off, n

    def length(self):
        return self.n

    def split(self, n):
        return TokS(self.tok, self.off, n), TokS(self.tok, self.off + n, self.n - n)

    def full(self):
        if isinstance(self.off, int):
            if self.off != 0:
                return False
        elif not bool(self.off == 0):
            return False
        if same_term(self.n, self.tok.nbytes):
            return True
        return bool(self.n == self.tok.nbytes)

    def __repr__(self):
        return "TokS(%r[%s:+%s])" % (self.tok, self.off, self.n)


class Blob(Seg):
    """Opaque data: bytes off..off+n of the data named src; ``sw`` is the
    element size if the elements are stored byte-swapped (0: not)."""
    __slots__ = ("src", "off", "n", "sw")

    def __init__(self, src, off, n, sw=0):
        self.src, self.off, self.n, self.sw = src, off, n, sw

    def length(self):
        return self.n

    def split(self, n):
        return Blob(self.src, self.off, n, self.sw), Blob(self.src, self.off + n, self.n - n, self.sw)

    def __repr__(self):
        return "Blob(%s[%s:+%s]%s)" % (self.src, self.off, self.n, " sw%d" % self.sw if self.sw else "")


def seg_total(segs):
    n = 0
    for s in segs:
        n = n + s.length()
    return n


def _merge(segs):
    out = []
    for s in segs:
        if isinstance(s, Lit) and not s.b:
            continue
        if isinstance(s, Fill) and isinstance(s.n, int):
            if s.n <= 0:
                continue
            s = Lit(b"\0" * s.n) if s.n <= 64 else s
        if isinstance(s, (TokS, Blob)) and isinstance(s.n, int) and s.n == 0:
            continue
        if isinstance(s, ChrB):
            if s.i == s.j:
                continue
            if s.i == 0 and s.j == s.n:
                s = Chr(s.c)
        if isinstance(s, NumB):
            if s.i == s.j:
                continue
            if s.i == 0 and s.j == s.num.size:
                s = s.num
        if out:
            p = out[-1]
            if isinstance(p, Lit) and isinstance(s, Lit):
                out[-1] = Lit(p.b + s.b)
                continue
            if isinstance(p, ChrB) and isinstance(s, ChrB) and p.c is s.c and p.n == s.n and p.j == s.i:
                out[-1] = ChrB(p.c, p.n, p.i, s.j)
                if p.i == 0 and s.j == p.n:
                    out[-1] = Chr(p.c)
                continue
            if isinstance(p, NumB) and isinstance(s, NumB) and p.num is s.num and p.j == s.i:
                out[-1] = NumB(p.num, p.i, s.j)
                if p.i == 0 and s.j == p.num.size:
                    out[-1] = p.num
                continue
            if isinstance(p, Blob) and isinstance(s, Blob) and p.src == s.src and p.sw == s.sw and \
                    same_term(_s(p.off + p.n), _s(s.off)):
                out[-1] = Blob(p.src, p.off, p.n + s.n, p.sw)
                continue
            if isinstance(p, TokS) and isinstance(s, TokS) and p.tok is s.tok and \
                    same_term(_s(p.off + p.n), _s(s.off)):
                out[-1] = TokS(p.tok, p.off, p.n + s.n)
                continue
        out.append(s)
    return out


def _s(x):
    return x


def split_segs(segs, n):
    """Split at byte n (0 <= n <= total assumed); forks where undetermined."""
    segs = list(segs)
    out = []
    rem = n
    k = 0
    while k < len(segs):
        if isinstance(rem, int) and rem == 0:
            break
        s = segs[k]
        l = s.length()
        if isinstance(rem, int) and isinstance(l, int):
            whole = rem >= l
        else:
            d = rem - l
            whole = bool(d >= 0)
        if whole:
            out.append(s)
            rem = rem - l
            k += 1
            continue
        if not isinstance(rem, int) and bool(rem == 0):
            rem = 0
            break
        a, b = s.split(rem)
        out.append(a)
        return out, [b] + segs[k + 1:]
    return out, segs[k:]


def lift_bytes(b):
    if isinstance(b, SymBytes):
        return b
    if isinstance(b, SymByteArray):
        return b.val
    if isinstance(b, (bytes, bytearray, memoryview)):
        return SymBytes([Lit(bytes(b))])
    raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)


def is_byteslike(x):
    return isinstance(x, (bytes, bytearray, memoryview, SymBytes, SymByteArray))


class SymBytes:
    __slots__ = ("segs", )

    def __init__(self, segs):
        self.segs = tuple(_merge(segs))

    def __hash__(self):
        return 77773

    def __repr__(self):
        return "SymBytes(%s)" % (list(self.segs), )

    __str__ = None

    def concrete(self):
        if all(isinstance(s, Lit) for s in self.segs):
            return b"".join(s.b for s in self.segs)
        return None

    def sym_len(self):
        return seg_total(self.segs)

    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        n = self.sym_len()
        return n != 0 if isinstance(n, int) else bool(n != 0)

    def __add__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return SymBytes(self.segs + lift_bytes(o).segs)

    def __radd__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return SymBytes(lift_bytes(o).segs + self.segs)

    def __mul__(self, n):
        if not isinstance(n, int):
            n = n.__index__()
        return SymBytes(self.segs * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_byteslike(o):
            return False
        return rope_eq(self, lift_bytes(o))

    def __ne__(self, o):
        return Not(self == o)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("bytes slice step")
            total = self.sym_len()
            a = 0 if k.start is None else k.start
            b = total if k.stop is None else k.stop
            if not isinstance(a, int) or a < 0:
                a = _clamp(a, total)
            else:
                a = _clamp_hi(a, total)
            if k.stop is not None:
                b = _clamp(b, total)
            if not (isinstance(a, int) and isinstance(b, int) and a < b):
                if not bool(a < b):
                    return SymBytes([])
            l, r = split_segs(self.segs, b)
            _, m = split_segs(l, a)
            return SymBytes(m)
        n = self.sym_len()
        i = k
        if bool(i < 0):
            i = i + n
        if bool(i < 0) or bool(i >= n):
            raise IndexError("index out of range")
        l, r = split_segs(self.segs, i)
        return first_byte(r)

    def __iter__(self):
        segs = list(self.segs)
        while segs:
            l = segs[0].length()
            if not isinstance(l, int) and bool(l == 0):
                segs = segs[1:]
                continue
            if isinstance(l, int) and l == 0:
                segs = segs[1:]
                continue
            if isinstance(segs[0], Lit):
                yield from segs[0].b
                segs = segs[1:]
                continue
            a, segs = split_segs(segs, 1)
            yield first_byte(a)

    def __contains__(self, x):
        if is_byteslike(x):
            return self.find(x) != -1
        for b in self:
            if b == x:
                return True
        return False

    def units(self):
        """List of one-byte segments (forks on character widths)."""
        out = []
        for s in self.segs:
            if isinstance(s, Lit):
                out.extend(Lit(bytes([b])) for b in s.b)
            elif isinstance(s, Chr):
                n = utf8_len_fork(s.c)
                out.extend(ChrB(s.c, n, i, i + 1) for i in range(n))
            elif isinstance(s, (ChrB, NumB)):
                r = [s]
                while len(r[-1].__class__.__name__) and r[-1].length() > 1:
                    a, b = r[-1].split(1)
                    r[-1:] = [a, b]
                out.extend(r)
            elif isinstance(s, Num):
                out.extend(NumB(s, i, i + 1) for i in range(s.size))
            else:
                out.append(s)  # opaque
        return out

    # -- methods
    def decode(self, encoding="utf-8", errors="strict"):
        return decode_segs(self.segs, _norm_enc(encoding), errors if isinstance(errors, str) else errors.concrete())

    def join(self, parts):
        out = []
        first = True
        for p in parts:
            if not first:
                out.extend(self.segs)
            first = False
            out.extend(lift_bytes(p).segs)
        return SymBytes(out)

    def _find_units(self, us, sub, k):
        if k + len(sub) > len(us):
            return False
        return And(*[unit_eq(us[k + j], sub[j]) for j in range(len(sub))])

    def find(self, sub, start=None, end=None):
        if isinstance(sub, int):
            sub = bytes([sub])
        if start is not None or end is not None:
            base = start or 0
            r = self[start:end].find(sub)
            return r if isinstance(r, int) and r == -1 else r + base
        c = lift_bytes(sub).concrete()
        if c is None:
            raise Unsupported("bytes.find symbolic")
        us = self.units()
        pos = 0
        for k in range(len(us)):
            if bool(self._find_units(us, c, k)):
                return pos
            pos = pos + (us[k].length() if not isinstance(us[k], (ChrB, Lit, NumB)) else 1)
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if isinstance(r, int) and r == -1:
            raise ValueError("subsection not found")
        return r

    def split(self, sep=None, maxsplit=-1):
        us = self.units()
        out, cur = [], []
        if sep is None:
            for u in us:
                if bool(unit_in(u, BWS_R)):
                    if cur:
                        out.append(SymBytes(cur))
                        cur = []
                else:
                    cur.append(u)
            if maxsplit >= 0:
                raise Unsupported("bytes.split maxsplit")
            if cur:
                out.append(SymBytes(cur))
            return out
        sep = lift_bytes(sep).concrete()
        if sep is None:
            raise Unsupported("bytes.split symbolic separator")
        k = 0
        while k < len(us):
            if (maxsplit < 0 or len(out) < maxsplit) and bool(self._find_units(us, sep, k)):
                out.append(SymBytes(cur))
                cur = []
                k += len(sep)
            else:
                cur.append(us[k])
                k += 1
        out.append(SymBytes(cur))
        return out

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return self, SymBytes([]), SymBytes([])
        return p[0], lift_bytes(sep), p[1]

    def _strip(self, chars, left, right):
        rs = BWS_R if chars is None else ranges(list(lift_bytes(chars).concrete()))
        us = self.units()
        if left:
            while us and bool(unit_in(us[0], rs)):
                us.pop(0)
        if right:
            while us and bool(unit_in(us[-1], rs)):
                us.pop()
        return SymBytes(us)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _cased(self, a, d):
        out = []
        for u in self.units():
            if isinstance(u, Lit) or isinstance(u, Fill) and u.n == 1:
                b = byte_value(u) if isinstance(u, Lit) else 0
                out.append(Lit(bytes([b + d if a[0] <= b <= a[1] else b])))
            elif bool(unit_in(u, [a])):
                out.extend(int_to_bytes(byte_value(u) + d, 1, "little", False).segs)
            else:
                out.append(u)
        return SymBytes(out)

    def lower(self):
        return self._cased((65, 90), 32)

    def upper(self):
        return self._cased((97, 122), -32)

    def startswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.startswith(x) for x in p])
        p = lift_bytes(p)
        n = p.sym_len()
        if not bool(self.sym_len() >= n):
            return False
        return rope_eq(self[:n], p)

    def endswith(self, p):
        p = lift_bytes(p)
        n, t = p.sym_len(), self.sym_len()
        if not bool(t >= n):
            return False
        return rope_eq(self[t - n:], p)

    def replace(self, old, new):
        return lift_bytes(new).join(self.split(old))

    def tobytes(self):
        return self

    def hex(self):
        return "<hex>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytes, name):
            c = self.concrete()

            def meth(*a, **k):
                if c is None:
                    raise Unsupported("bytes.%s on symbolic bytes" % name)
                a = [x.concrete() if isinstance(x, (SymBytes, SymStr)) else x for x in a]
                return getattr(c, name)(*a, **k)

            return meth
        raise AttributeError("'bytes' object has no attribute '%s'" % name)


def _clamp(v, total):
    if isinstance(v, int) and isinstance(total, int):
        if v < 0:
            return max(0, v + total)
        return min(v, total)
    if bool(v < 0):
        v = v + total
        if bool(v < 0):
            return 0
        return v
    if bool(v <= total):
        return v
    return total


def _clamp_hi(v, total):
    if isinstance(v, int) and isinstance(total, int):
        return min(v, total)
    if v == 0:
        return 0
    return v if bool(total >= v) else total


class SymByteArray:
    """bytearray"""
    __hash__ = None
    _is_sym = True

    def __init__(self, val=None):
        self.val = val if val is not None else SymBytes([])

    def sym_len(self):
        return self.val.sym_len()

    def __len__(self):
        return len(self.val)

    def __bool__(self):
        return bool(self.val)

    def extend(self, o):
        if not is_byteslike(o):
            o = bytes(list(o))
        self.val = self.val + lift_bytes(o)

    def append(self, b):
        self.val = self.val + byte_of(b)

    def __iadd__(self, o):
        self.val = self.val + lift_bytes(o)
        return self

    def clear(self):
        self.val = SymBytes([])

    def __getitem__(self, k):
        r = self.val[k]
        return SymByteArray(r) if isinstance(r, SymBytes) else r

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            n = self.val.sym_len()
            a = _clamp(0 if k.start is None else k.start, n)
            b = _clamp(n if k.stop is None else k.stop, n)
            self.val = self.val[:a] + lift_bytes(v) + self.val[b:]
            return
        n = self.val.sym_len()
        k = k if not bool(k < 0) else k + n
        self.val = self.val[:k] + byte_of(v) + self.val[k + 1:]

    def __delitem__(self, k):
        if isinstance(k, slice):
            self[k] = b""
        else:
            raise Unsupported("del bytearray[i]")

    def __eq__(self, o):
        return self.val == o

    def __ne__(self, o):
        return Not(self.val == o)

    def __iter__(self):
        return iter(self.val)

    def __add__(self, o):
        return SymByteArray(self.val + lift_bytes(o))

    def __contains__(self, x):
        return x in self.val

    def __repr__(self):
        return "bytearray(...)"

    def _sym_str(self):
        return "bytearray(...)"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.val, name)


def byte_of(b):
    if isinstance(b, int):
        return SymBytes([Lit(bytes([b]))])
    if isinstance(b, SymInt):
        return SymBytes([Num("i", b, 1)])
    raise TypeError("an integer is required")


def int_to_bytes(v, length, byteorder, signed):
    length = length if isinstance(length, int) else length.__index__()
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1))) if signed else (0, 1 << (8 * length))
    if not bool(And(v >= lo, v < hi)):
        raise OverflowError("int too big to convert")
    if isinstance(v, int):
        return SymBytes([Lit(v.to_bytes(length, byteorder, signed=signed))])
    return SymBytes([Num("i", v, length, byteorder != "little" and length > 1)])


def repeat(b, n):
    """native bytes/str times a symbolic count"""
    if isinstance(b, bytes):
        if b == b"\0":
            if bool(n < 0):
                return SymBytes([])
            return SymBytes([Fill(n)])
        return b * n.__index__()
    return b * n.__index__()


# -- byte values


def _byte_of_chr(c, n, k):
    if n == 1:
        return c
    shift = 6 * (n - 1 - k)
    if k == 0:
        lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
        v = (c >> shift)
        # lead bits are disjoint from the payload
        return v | lead
    return ((c >> shift) & 0x3F) | 0x80


def byte_value(seg):
    """int/SymInt value of a one-byte segment"""
    if isinstance(seg, Lit):
        return seg.b[0]
    if isinstance(seg, Chr):
        return seg.c
    if isinstance(seg, ChrB):
        return _byte_of_chr(seg.c, seg.n, seg.i)
    if isinstance(seg, Fill):
        return 0
    if isinstance(seg, Num) and seg.size == 1:
        seg = NumB(seg, 0, 1)
    if isinstance(seg, NumB):
        num = seg.num
        if num.kind == "i":
            k = num.size - 1 - seg.i if num.swapped else seg.i
            return (num.v >> (8 * k)) & 0xFF
        return _unknown_byte(("numb", repr(num), seg.i))
    if isinstance(seg, TokS):
        return _unknown_byte(("tok", id(seg.tok), repr(seg.off)))
    if isinstance(seg, Blob):
        return _unknown_byte(("blob", seg.src, repr(seg.off), seg.sw))
    raise Unsupported("byte value")


def _unknown_byte(key):
    c = ctx()
    if key not in c.memo:
        c.imprecise.append("byte of opaque data")
        c.memo[key] = z3.BitVec(c.fresh("byte"), 8)
    return mkbv(z3.ZeroExt(1, c.memo[key]), True)


def first_byte(segs):
    s = segs[0]
    l = s.length()
    if isinstance(l, int) and l == 1 and not isinstance(s, (TokS, Blob)):
        return byte_value(s)
    a, _ = split_segs([s], 1)
    return byte_value(a[0])


def unit_in(u, rs):
    if isinstance(u, Lit):
        return in_ranges(u.b[0], rs)
    if isinstance(u, ChrB):
        if u.n > 1 and all(b < 0x80 for _, b in rs):
            return False
        return in_ranges(byte_value(u), rs)
    if isinstance(u, TokS):
        if isinstance(u.tok, (IntText, FloatText, PartialTok)):
            if not any(a <= y and x <= b for a, b in rs for x, y in NUMCHARS):
                return False
        if isinstance(u.tok, Atom) and getattr(u.tok, "no_ws", False) and all(
                any(x == y for y in BWS) for a, b in rs for x in range(a, b + 1)):
            return False
        raise Unsupported("byte class of opaque text")
    if isinstance(u, NumB):
        return in_ranges(byte_value(u), rs)
    if isinstance(u, Fill):
        if isinstance(u.n, int) and u.n == 1:
            return in_ranges(0, rs)
    raise Unsupported("byte class of opaque data")


def unit_eq(u, b):
    if isinstance(u, ChrB) and u.n > 1 and b < 0x80:
        return False
    if isinstance(u, (TokS, )):
        return unit_in(u, [[b, b]])
    return unit_in(u, [[b, b]])


# -- equality


def rope_eq(a, b):
    sa, sb = list(a.segs), list(b.segs)
    la, lb = seg_total(sa), seg_total(sb)
    r = la == lb
    if r is False:
        return False
    if r is not True and not bool(r):
        return False
    conds = []
    while sa and sb:
        x, y = sa[0], sb[0]
        lx, ly = x.length(), y.length()
        if _is_zero(lx):
            sa.pop(0)
            continue
        if _is_zero(ly):
            sb.pop(0)
            continue
        if same_term(lx, ly) or bool(lx == ly):
            sa.pop(0)
            sb.pop(0)
        elif bool(lx < ly):
            y1, y2 = y.split(lx)
            sa.pop(0)
            sb[0] = y2
            y = y1
        else:
            x1, x2 = x.split(ly)
            sb.pop(0)
            sa[0] = x2
            x = x1
        r = seg_eq(x, y)
        if r is False:
            return False
        if r is not True:
            conds.append(r)
    return And(*conds)


def _is_zero(l):
    if isinstance(l, int):
        return l == 0
    return False


def seg_eq(x, y):
    if isinstance(x, Lit) and isinstance(y, Lit):
        return x.b == y.b
    if isinstance(x, Num) and isinstance(y, Num) and x.kind == y.kind and x.size == y.size and (
            x.swapped == y.swapped or x.size == 1):
        if x.kind == "f":
            if same_val(x.v, y.v):
                return True
        return num_same(x.v, y.v, x)
    if isinstance(x, Num) and isinstance(y, Num) and x.kind == "f" and y.kind == "f" and x.size == y.size:
        # same float in opposite byte orders: equal only for palindromic
        # bit patterns such as 0.0
        return False if not (same_val(x.v, 0) and same_val(y.v, 0)) else True
    if isinstance(x, Fill) and isinstance(y, Fill):
        return True
    if isinstance(x, Chr) and isinstance(y, Chr):
        return True if same_term(x.c, y.c) else x.c == y.c
    if isinstance(x, ChrB) and isinstance(y, ChrB) and x.n == y.n and x.i == y.i and same_term(x.c, y.c):
        return True
    if isinstance(x, NumB) and isinstance(y, NumB) and x.i == y.i and x.num is y.num:
        return True
    if isinstance(x, TokS) and isinstance(y, TokS) and x.tok is y.tok:
        return And(x.off == y.off)
    if isinstance(x, TokS) and isinstance(y, TokS) and type(x.tok) is type(y.tok):
        if x.full() and y.full():
            return x.tok.eq(y.tok)
    if isinstance(x, Blob) and isinstance(y, Blob):
        if x.src == y.src and x.sw == y.sw:
            return And(x.off == y.off)
        return False
    if isinstance(x, Blob) or isinstance(y, Blob):
        return False  # opaque data differs from anything else for some content
    if isinstance(x, (TokS, )) or isinstance(y, (TokS, )):
        t = x if isinstance(x, TokS) else y
        o = y if t is x else x
        if isinstance(t.tok, (IntText, FloatText)) and isinstance(o, Lit):
            if any(not in_ranges(b, NUMCHARS) for b in o.b):
                return False
        key = ("segeq", repr(x), repr(y))
        c = ctx()
        if key not in c.memo:
            c.imprecise.append("equality of opaque text with other bytes")
            c.memo[key] = z3.Bool(c.fresh("segeq"))
        return SymBool(c.memo[key])
    # byte-wise
    n = x.length()
    n = n if isinstance(n, int) else n.__index__()
    ux, uy = SymBytes([x]).units(), SymBytes([y]).units()
    if any(isinstance(s, Fill) for s in ux):
        ux = [Lit(b"\0")] * n
    if any(isinstance(s, Fill) for s in uy):
        uy = [Lit(b"\0")] * n
    if len(ux) != len(uy):
        raise Unsupported("segment comparison %r %r" % (x, y))
    conds = []
    for p, q in zip(ux, uy):
        a, b = byte_value(p), byte_value(q)
        if same_term(a, b):
            continue
        if isinstance(a, SymInt) and isinstance(b, SymInt) and (a.bv is None) != (b.bv is None):
            r = mkbool(a.e == b.e)
        else:
            r = a == b
        if r is False:
            return False
        conds.append(r)
    return And(*conds)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, SymReal) and isinstance(b, SymReal):
        return a.e is not None and b.e is not None and a.e.eq(b.e)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return False


def num_same(a, b, num):
    if num.kind == "f":
        return a == b
    m = 1 << (8 * num.size)
    if isinstance(a, int) and isinstance(b, int):
        return a % m == b % m
    if bool(And(a >= 0, b >= 0)):
        return a == b
    return a % m == b % m


def decode_bytes(bs, errors, bad):
    """UTF-8 decoding of arbitrary bytes"""
    out = []
    k = 0

    def within(b, lo, hi):
        return lo <= b <= hi if isinstance(b, int) else bool(And(b >= lo, b <= hi))

    while k < len(bs):
        b = bs[k]
        if within(b, 0, 0x7f):
            out.append(b)
            k += 1
            continue
        lo, hi = 0x80, 0xbf
        if within(b, 0xc2, 0xdf):
            need, base = 1, 0xc0
        elif within(b, 0xe0, 0xef):
            need, base = 2, 0xe0
            if within(b, 0xe0, 0xe0):
                lo = 0xa0
            elif within(b, 0xed, 0xed):
                hi = 0x9f
        elif within(b, 0xf0, 0xf4):
            need, base = 3, 0xf0
            if within(b, 0xf0, 0xf0):
                lo = 0x90
            elif within(b, 0xf4, 0xf4):
                hi = 0x8f
        else:
            need, base = 0, None
        c = None if base is None else b - base
        j = k + 1
        ok = base is not None
        for _ in range(need):
            if j >= len(bs) or not within(bs[j], lo, hi):
                ok = False
                break
            c = c * 64 + (bs[j] - 0x80)
            lo, hi = 0x80, 0xbf
            j += 1
        if ok:
            out.append(c)
        elif errors == "strict":
            bad()
        elif errors == "replace":
            out.append(0xfffd)
        elif errors == "surrogateescape":
            out.extend(0xdc00 + x for x in bs[k:j])
        elif errors == "surrogatepass":
            if k + 2 < len(bs) and within(b, 0xed, 0xed) and within(bs[k + 1], 0xa0, 0xbf) and within(bs[k + 2], 0x80, 0xbf):
                out.append((b - 0xe0) * 4096 + (bs[k + 1] - 0x80) * 64 + (bs[k + 2] - 0x80))
                j = k + 3
            else:
                bad()
        elif errors != "ignore":
            raise Unsupported("decode errors=" + errors)
        k = j
    return out


def decode_segs(segs, enc, errors):
    if enc == "utf-8-sig":
        t = decode_segs(segs, "utf-8", errors)
        if t.items and isinstance(t.items[0], Atom):
            raise Unsupported("utf-8-sig")
        if t.items and not isinstance(t.items[0], Tok) and bool(t.items[0] == 0xfeff):
            t = SymStr(t.items[1:])
        return t
    segs = _merge(segs)
    out = []
    k = 0
    lim = {"ascii": 0x80, "latin-1": 0x100}.get(enc)
    if enc == "latin-1":
        c = SymBytes(segs).concrete()
        if c is None:
            ctx().imprecise.append("binary data decoded as text")
            at = Atom(ctx().fresh("binary"))
            ctx().add(int_expr(at.nchars) == int_expr(SymBytes(segs).sym_len()))
            return SymStr((at, ))
        return lift_str(c.decode("latin-1"))

    def bad():
        raise UnicodeDecodeError(enc, b"?", 0, 1, "invalid data")

    def raw(s):
        return isinstance(s, Num) and s.kind == "i" and s.size == 1

    while k < len(segs):
        s = segs[k]
        if enc == "utf-8" and (raw(s) or isinstance(s, Lit) and k + 1 < len(segs) and raw(segs[k + 1])):
            run = []
            while k < len(segs) and (raw(segs[k]) or isinstance(segs[k], Lit)):
                run.extend([segs[k].v] if raw(segs[k]) else segs[k].b)
                k += 1
            out.extend(decode_bytes(run, errors, bad))
            continue
        if isinstance(s, Lit):
            try:
                out.extend(ord(c) for c in s.b.decode(enc))
            except UnicodeDecodeError:
                if errors == "strict":
                    bad()
                out.extend(ord(c) for c in s.b.decode(enc, errors))
        elif isinstance(s, Chr):
            if lim is not None and not bool(s.c < lim):
                if errors == "strict":
                    bad()
                n = utf8_len_fork(s.c)
                out.extend([0xFFFD] * n if errors == "replace" else [])
            else:
                out.append(s.c)
        elif isinstance(s, ChrB):
            if errors == "strict":
                bad()
            if errors == "replace":
                out.extend([0xFFFD] if s.i == 0 else [0xFFFD] * (s.j - s.i))
        elif isinstance(s, TokS):
            if s.full():
                out.append(s.tok)
            elif isinstance(s.tok, (IntText, FloatText)):
                if not (bool(s.n == 0)):
                    out.append(PartialTok(s.tok, s.n))
            elif bool(mkbool(int_expr(s.n) == 0)):
                pass
            elif not isinstance(s.tok, Atom):
                if not hasattr(s.tok, "cut") or not (isinstance(s.off, int) and s.off == 0):
                    raise Unsupported("decoding a part of %s" % type(s.tok).__name__)
                from .vcall import CutToml
                out.append(CutToml(s.tok, s.n))
            else:
                c = ctx()
                key = ("atomslice", id(s.tok), repr(s.off), repr(s.n))
                if key not in c.memo:
                    b = z3.Bool(c.fresh("charboundary"))
                    at = Atom(c.fresh("slice"))
                    c.add(int_expr(at.nbytes) == int_expr(s.n))
                    # a proper part is not the whole
                    c.add(at.sid != s.tok.sid)
                    at.partial_of = s
                    c.memo[key] = (b, at, s)
                b, at, _ = c.memo[key]
                if bool(SymBool(b)):
                    out.append(at)
                elif errors == "strict":
                    bad()
                else:
                    raise Unsupported("lossy decoding of opaque text")
        elif isinstance(s, Fill):
            n = s.n if isinstance(s.n, int) else s.n.__index__()
            out.extend([0] * n)
        else:
            # binary data read as text: an exception or arbitrary text
            c = ctx()
            c.imprecise.append("binary data decoded as text")
            if errors != "strict":
                out.append(Atom(c.fresh("binary")))
            elif bool(SymBool(z3.Bool(c.fresh("decodes")))):
                at = Atom(c.fresh("binary"))
                c.add(int_expr(at.nbytes) == int_expr(s.length()))
                out.append(at)
            else:
                bad()
        k += 1
    return SymStr(out)
