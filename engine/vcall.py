"""Run-time library of the instrumented code: calls of built-ins and of the
standard library that must work on symbolic values are intercepted here."""
import builtins
import enum
import functools
import io as _io
import os as _os
import pathlib
import re as _re
import struct as _struct
import sys as _sys
import types

import z3

from . import core, rope, files, arr, sre
from .core import (SymInt, SymReal, SymBool, Unsupported, BoundExceeded, Ctl, And, Or, Not, mkint, mkbool, ctx,
                   int_expr)
from .rope import SymStr, SymBytes, SymByteArray, lift_str, lift_bytes, contains_sym

RANGE_MAX = 40


def is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool, SymStr, SymBytes)) or getattr(type(x), "_is_sym", False)


def symkey(k):
    if isinstance(k, (SymStr, SymInt, SymReal, SymBytes, SymBool)):
        return True
    if isinstance(k, tuple):
        return any(symkey(i) for i in k)
    return False


def keq(a, b):
    if a is b:
        return True
    r = a == b
    return r if isinstance(r, bool) else bool(r)


_MISS = object()


class SymDict(dict):
    """dict that finds symbolic keys by solver-decided equality."""
    _symdict = True

    def __init__(self, *a, **k):
        super().__init__()
        self.update(*a, **k)

    def _find(self, key):
        if not symkey(key):
            if not any(symkey(k) for k in dict.keys(self)):
                return key if dict.__contains__(self, key) else _MISS
        for k in dict.keys(self):
            if k is key:
                return k
        for k in dict.keys(self):
            if keq(k, key):
                return k
        return _MISS

    def __getitem__(self, key):
        k = self._find(key)
        if k is _MISS:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return dict.__getitem__(self, k)

    def __setitem__(self, key, v):
        k = self._find(key)
        if k is _MISS:
            _put(self, key, v)
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _MISS:
            raise KeyError(key)
        dict.__delitem__(self, k)

    def __contains__(self, key):
        return self._find(key) is not _MISS

    def get(self, key, default=None):
        k = self._find(key)
        return default if k is _MISS else dict.__getitem__(self, k)

    def pop(self, key, *default):
        k = self._find(key)
        if k is _MISS:
            if default:
                return default[0]
            raise KeyError(key)
        return dict.pop(self, k)

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is _MISS:
            _put(self, key, default)
            return default
        return dict.__getitem__(self, k)

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for k in o.keys():
                    self[k] = dict.__getitem__(o, k)
            elif hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for p in o:
                    k, v = p
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return type(self)(self) if type(self) is not SymDefaultDict else self

    def __eq__(self, o):
        return dict_eq(self, o)

    def __ne__(self, o):
        r = dict_eq(self, o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r


class _Key:
    pass


def _put(d, key, v):
    """insert a key that equals none of the present ones (constant hashes
    make dict call ==, which the path already decided to be false)"""
    dict.__setitem__(d, key, v)


def dict_eq(a, b):
    if not isinstance(b, dict):
        return NotImplemented
    if len(a) != len(b):
        return False
    for k in list(dict.keys(a)):
        kb = SymDict._find(b, k) if True else None
        if kb is _MISS:
            return False
        va, vb = dict.__getitem__(a, k), dict.__getitem__(b, kb)
        if va is vb:
            continue
        if not keq(va, vb):
            return False
    return True


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        super().__init__(*a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = V.call(self.default_factory)
        self[key] = v
        return v


class SymSet(set):
    def __init__(self, it=()):
        super().__init__()
        for x in it:
            self.add(x)

    def _find(self, key):
        if not symkey(key) and not any(symkey(k) for k in set.__iter__(self)):
            return key if set.__contains__(self, key) else _MISS
        for k in set.__iter__(self):
            if k is key:
                return k
        for k in set.__iter__(self):
            if keq(k, key):
                return k
        return _MISS

    def add(self, x):
        hash(x)
        if self._find(x) is _MISS:
            set.add(self, x)

    def __contains__(self, x):
        return self._find(x) is not _MISS

    def discard(self, x):
        k = self._find(x)
        if k is not _MISS:
            set.discard(self, k)

    def remove(self, x):
        k = self._find(x)
        if k is _MISS:
            raise KeyError(x)
        set.discard(self, k)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self)

    def union(self, *o):
        r = SymSet(self)
        r.update(*o)
        return r

    def intersection(self, *os):
        r = SymSet(self)
        for o in os:
            o = o if isinstance(o, SymSet) else SymSet(o)
            r = SymSet([x for x in r if x in o])
        return r

    def difference(self, *os):
        r = SymSet(self)
        for o in os:
            o = o if isinstance(o, SymSet) else SymSet(o)
            r = SymSet([x for x in r if x not in o])
        return r

    def difference_update(self, *os):
        r = self.difference(*os)
        for x in list(set.__iter__(self)):
            if not any(x is y for y in r):
                set.discard(self, x)

    def symmetric_difference(self, o):
        o = SymSet(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _c(self, o):
        return isinstance(o, (set, frozenset)) or hasattr(o, "_from_iterable") or isinstance(
            o, (type({}.keys()), type({}.items())))

    def __or__(self, o):
        return self.union(o) if self._c(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._c(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._c(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __eq__(self, o):
        if not self._c(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None


class SymFrozenSet(SymSet):
    def __hash__(self):
        return 7


class SymRange:
    _is_sym = True

    def __init__(self, a, b, s):
        self.start, self.stop, self.step = a, b, s

    def sym_len(self):
        if self.step == 1:
            n = self.stop - self.start
            return n if bool(n >= 0) else 0
        raise Unsupported("len of symbolic range")

    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        return bool(self.start < self.stop) if self.step > 0 else bool(self.start > self.stop)

    def __iter__(self):
        k = self.start
        n = 0
        while bool(k < self.stop) if self.step > 0 else bool(k > self.stop):
            yield k
            k = k + self.step
            n += 1
            if n > RANGE_MAX:
                raise BoundExceeded("loop over a symbolic range")

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic range")
        return self.start + i * self.step

    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported("in symbolic range")
        return bool(And(x >= self.start, x < self.stop))

    def __reversed__(self):
        if self.step != 1:
            raise Unsupported("reversed range")
        return iter(SymRange(self.stop - 1, self.start - 1, -1))


# -- toml


class TomlText(rope.Tok):
    """toml.dumps(d): text whose content is given by the toml library's
    contract loads(dumps(d)) == d."""

    def __init__(self, snap):
        c = ctx()
        self.snap = snap
        name = c.fresh("toml")
        nc, nb = z3.Int(name + ".nchars"), z3.Int(name + ".nbytes")
        c.add(z3.And(nc >= 0, nb >= nc, nb <= 4 * nc, nb < 2**48))
        self.nchars, self.nbytes = SymInt(nc), SymInt(nb)
        self.template()
        # what the lengths are for texts that need no quoting; prefer such
        # texts in counterexamples
        if self.exact is not None:
            c.soft.append(z3.And(nc == int_expr(self.exact[0]), nb == int_expr(self.exact[1])))
        else:
            c.soft.append(nc <= 60)

    def template(self):
        """the text with place holders for the symbolic parts"""
        import toml
        self.exact = None
        leaves = []

        def mark(x):
            if isinstance(x, dict):
                return {k: mark(v) for k, v in x.items()}
            if isinstance(x, list):
                return [mark(v) for v in x]
            if isinstance(x, SymStr):
                leaves.append(("QZ%05dQZ" % len(leaves), x))
                return leaves[-1][0]
            if isinstance(x, SymInt):
                leaves.append((str(98760000 + len(leaves)), x))
                return int(leaves[-1][0])
            if isinstance(x, (str, int, float, bool)):
                return x
            raise KeyError

        try:
            self.text = toml.dumps(mark(self.snap))
        except Exception:  # keys or values without a template
            return
        self.leaves = leaves
        if any(self.text.count(m) != 1 for m, _ in leaves):
            return
        self.exact = self.sizes(self.text)

    def sizes(self, text):
        """(characters, bytes) of a part of the template, with the place
        holders replaced"""
        nc, nb = len(text), len(text.encode("utf-8"))
        for m, v in self.leaves:
            if m in text:
                t = rope.IntText(v) if isinstance(v, SymInt) else None
                vc = t.nchars if t else v.sym_len()
                vb = t.nbytes if t else v.encode("utf-8").sym_len()
                nc, nb = nc - len(m) + vc, nb - len(m) + vb
        return nc, nb

    def cut(self, n):
        """loads(first n bytes of the text)"""
        import toml
        if self.exact is None:
            raise Unsupported("toml.loads of cut text")
        c = ctx()
        for k in [i for i, ch in enumerate(self.text) if ch == "\n"]:
            for e in (k, k + 1):
                try:
                    d = toml.loads(self.text[:e])
                except Exception:
                    continue
                at = z3.And(int_expr(n) == int_expr(self.sizes(self.text[:e])[1]),
                            int_expr(self.nbytes) == int_expr(self.exact[1]),
                            int_expr(self.nchars) == int_expr(self.exact[0]))
                if bool(mkbool(at)):
                    def put(x):
                        if isinstance(x, dict):
                            return SymDict([(k, put(v)) for k, v in x.items()])
                        if isinstance(x, list):
                            return [put(v) for v in x]
                        for m, v in self.leaves:
                            if str(x) == m:
                                return v
                        return x
                    return put(d)
        raise Unsupported("toml.loads of cut text")

    def eq(self, o):
        return self.snap is o.snap


class CutToml(rope.Tok):
    def __init__(self, tok, n):
        self.tok, self.nbytes = tok, n
        c = ctx()
        nc = z3.Int(c.fresh("tomlcut") + ".nchars")
        c.add(z3.And(nc >= 0, int_expr(n) >= nc, int_expr(n) <= 4 * nc))
        self.nchars = SymInt(nc)

    def eq(self, o):
        raise Unsupported("compare cut toml text")


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(x[k]) for k in x}
    if isinstance(x, (list, tuple)):
        return [snapshot(i) for i in x]
    return x


def toml_dumps(d, *a):
    import toml
    if not contains_sym(d):
        return toml.dumps(d, *a)
    if not isinstance(d, dict):
        raise TypeError("toml.dumps needs a dict")
    snap = snapshot(d)
    made = ctx().memo.setdefault("tomls", [])
    for t in made:  # the same contents give the same text
        if same_snap(t.snap, snap):
            return SymStr((t, ))
    t = TomlText(snap)
    made.append(t)
    return SymStr((t, ))


def same_snap(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        return len(ka) == len(kb) and all(isinstance(x, str) and isinstance(y, str) and x == y and same_snap(a[x], b[y])
                                          for x, y in zip(ka, kb))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same_snap, a, b))
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return rope.same_term(a, b)
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return len(a.items) == len(b.items) and all(x is y or rope.same_term(x, y) for x, y in zip(a.items, b.items))
    return type(a) is type(b) and isinstance(a, (str, int, float)) and a == b


def toml_loads(s, _dict=dict, decoder=None):
    import toml
    if isinstance(s, (bytes, SymBytes)):
        raise TypeError("Expecting something like a string")
    if isinstance(s, str):
        return toml.loads(s)
    items = s.items
    if len(items) == 1 and isinstance(items[0], TomlText):
        return unsnap(items[0].snap)
    if len(items) == 1 and isinstance(items[0], CutToml):
        return items[0].tok.cut(items[0].nbytes)
    c = s.concrete()
    if c is not None:
        return toml.loads(c)
    raise Unsupported("toml.loads of other text")


def unsnap(x):
    if isinstance(x, dict):
        return SymDict([(k, unsnap(v)) for k, v in x.items()])
    if isinstance(x, list):
        return [unsnap(i) for i in x]
    return x


# -- text of values


def to_text(x):
    if x is None or isinstance(x, (str, SymStr, int, float, SymInt, SymReal, SymBool, SymBytes, type)):
        return rope.to_text(x)
    if hasattr(x, "_sym_str"):
        return x._sym_str()
    if isinstance(x, BaseException):
        a = x.args
        if len(a) == 1:
            return to_text(a[0])
        return "" if not a else "(...)"
    for name in ("__str__", "__repr__"):
        f = getattr(type(x), name, None)
        if isinstance(f, types.FunctionType) and type(x).__module__.startswith("finalfusion"):
            return f(x)
    if isinstance(x, (list, tuple, dict, set)) and contains_sym(x):
        return "<container>"
    return rope.to_text(x)


def fmt_value(x, conv, spec):
    if not spec and conv in (-1, None, "s", 115) and not is_sym(x) and not isinstance(x, (str, int, float)):
        return to_text(x)
    return rope.fmt_value(x, {115: "s", 114: "r", 97: "r", -1: None}.get(conv, conv), spec)


def parse_int(s, base=10):
    if isinstance(s, str):
        return int(s, base)
    if isinstance(s, SymBytes):
        s = s.decode("ascii")
    t = s.strip()
    if len(t.items) == 1:
        i = t.items[0]
        if isinstance(i, rope.IntText):
            return i.v
        if isinstance(i, rope.PartialTok) and isinstance(i.tok, rope.IntText):
            c = ctx()
            c.imprecise.append("prefix of the text of an int")
            p = z3.Int(c.fresh("intprefix"))
            c.add(z3.And(p >= 0, p * 10 <= int_expr(i.tok.v)))
            return SymInt(p)
        if isinstance(i, rope.FloatText):
            raise ValueError("invalid literal for int()")
    c = t.concrete()
    if c is not None:
        return int(c, base)
    if not t.items:
        raise ValueError("invalid literal for int() with base 10: ''")
    if all(not isinstance(i, rope.Tok) for i in t.items):
        # decimal digits only (sign and underscore handled by concretisation)
        v, ok = 0, True
        for i in t.items:
            if isinstance(i, int):
                if not 48 <= i <= 57:
                    ok = False
                    break
                v = v * 10 + (i - 48)
            else:
                if bool(And(i >= 48, i <= 57)):
                    v = v * 10 + mkint((i - 48).e)
                else:
                    ok = False
                    break
        if ok:
            return v
        ctx().imprecise.append("int() of non-ASCII-digit text")
        raise ValueError("invalid literal for int() with base 10")
    raise Unsupported("int of symbolic text")


# -- builtins


def v_len(x):
    f = getattr(x, "sym_len", None)
    if f is not None:
        return f()
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return len(x)


def v_range(*a):
    a = [core._conv(i) for i in a]
    for i in a:
        if not isinstance(i, (int, SymInt)):
            if isinstance(i, (float, SymReal)):
                raise TypeError("'float' object cannot be interpreted as an integer")
            return range(*a)
    if not any(isinstance(i, SymInt) for i in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    if len(a) == 2:
        return SymRange(a[0], a[1], 1)
    s = a[2]
    if isinstance(s, SymInt):
        s = s.__index__()
    return SymRange(a[0], a[1], s)


_NAT = {str: SymStr, bytes: SymBytes, int: SymInt, float: SymReal, bool: SymBool, bytearray: SymByteArray,
        range: SymRange, dict: SymDict, set: SymSet}


def _expand(t, out):
    if isinstance(t, tuple):
        for i in t:
            _expand(i, out)
    elif isinstance(t, types.UnionType):
        for i in t.__args__:
            _expand(i, out)
    else:
        out.append(t)


def v_isinstance(x, t):
    ts = []
    _expand(t, ts)
    if isinstance(x, SymStr):
        return any(k is str or k is object or _abc_has(k, str) for k in ts)
    if isinstance(x, SymBytes):
        return any(k is bytes or k is object or _abc_has(k, bytes) for k in ts)
    if isinstance(x, SymByteArray):
        return any(k is bytearray or k is object for k in ts)
    if isinstance(x, SymInt):
        return any(k is int or k is object or _abc_has(k, int) for k in ts)
    if isinstance(x, SymBool):
        return any(k in (bool, int, object) for k in ts)
    if isinstance(x, SymReal):
        return any(k in (float, object) or _abc_has(k, float) or getattr(k, "__module__", "") == "numpy" and k.__name__ in
                   ("float32", "floating", "number", "generic", "inexact") for k in ts)
    if isinstance(x, files.SymFile):
        return any(k is object or k.__module__ in ("_io", "io") and k.__name__ not in ("TextIOBase", "TextIOWrapper",
                                                                                       "StringIO")
                   for k in ts if isinstance(k, type))
    if isinstance(x, files.SymText):
        return any(k is object or k.__module__ in ("_io", "io") and k.__name__ in ("TextIOBase", "IOBase", "TextIOWrapper")
                   for k in ts if isinstance(k, type))
    return isinstance(x, t)


def _abc_has(k, native):
    try:
        return isinstance(k, type) and k.__module__ in ("collections.abc", "numbers", "typing", "_collections_abc") and \
            issubclass(native, k)
    except TypeError:
        return False


def v_issubclass(x, t):
    return issubclass(x, t)


_TYPES = {SymStr: str, SymBytes: bytes, SymInt: int, SymBool: bool, SymReal: float, SymByteArray: bytearray,
          SymDict: dict, SymSet: set, SymRange: range}


def v_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return _TYPES.get(t, t)
    return type(*a)


def v_int(x=0, base=None):
    if isinstance(x, (SymStr, SymBytes)):
        return parse_int(x, 10 if base is None else base)
    if base is not None:
        return int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymReal):
        if x.e is None:
            raise ValueError("cannot convert float NaN to integer")
        # truncation towards zero
        f = z3.ToInt(x.e)
        return mkint(z3.If(x.e >= 0, f, -z3.ToInt(-x.e)))
    if isinstance(x, arr.SymND):
        return v_int(x.item())
    m = getattr(type(x), "__int__", None) or getattr(type(x), "__index__", None)
    if isinstance(m, types.FunctionType) and not isinstance(x, int):
        return m(x)
    return int(x)


def v_float(x=0.0):
    if isinstance(x, (SymStr, SymBytes)):
        if isinstance(x, SymBytes):
            x = x.decode("ascii")
        return arr.parse_float(x)
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymReal(core.real_expr(x))
    if isinstance(x, arr.SymND):
        return v_float(x.item())
    return float(x)


def v_bool(x=False):
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return x != 0
    return bool(x)


def v_str(*a, **k):
    if not a and not k:
        return ""
    if len(a) == 1 and not k:
        return to_text(a[0])
    if isinstance(a[0], (SymBytes, SymByteArray)):
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


def v_bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    if isinstance(x, SymStr):
        if len(a) == 1 and "encoding" not in k:
            raise TypeError("string argument without an encoding")
        return x.encode(*a[1:], **k)
    if isinstance(x, str):
        return bytes(*a, **k)
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymByteArray):
        return x.val
    if isinstance(x, arr.SymND):
        return x.tobytes()
    if isinstance(x, SymInt):
        if bool(x < 0):
            raise ValueError("negative count")
        return SymBytes([rope.Fill(x)])
    if hasattr(x, "__iter__") and not isinstance(x, (bytes, bytearray, memoryview)):
        x = list(x)
        if contains_sym(x):
            r = SymBytes([])
            for b in x:
                if not isinstance(b, int) and not bool(And(b >= 0, b < 256)):
                    raise ValueError("bytes must be in range(0, 256)")
                r = r + rope.byte_of(b)
            return r
        return bytes(x)
    m = getattr(type(x), "__bytes__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return bytes(*a, **k)


def v_bytearray(*a, **k):
    if not a:
        return SymByteArray()
    return SymByteArray(lift_bytes(v_bytes(*a, **k)))


def v_memoryview(x):
    if isinstance(x, SymByteArray):
        return MemView(x)
    if isinstance(x, (SymBytes, bytes)):
        return lift_bytes(x)
    if isinstance(x, arr.SymND):
        return x.tobytes()
    return memoryview(x)


class MemView:
    _is_sym = True

    def __init__(self, ba, off=0, n=None):
        self.ba, self.off = ba, off
        self.n = ba.sym_len() if n is None else n

    def sym_len(self):
        return self.n

    def __getitem__(self, k):
        if isinstance(k, slice):
            a = rope._clamp(0 if k.start is None else k.start, self.n)
            b = rope._clamp(self.n if k.stop is None else k.stop, self.n)
            return MemView(self.ba, self.off + a, b - a)
        return self.ba[self.off + k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            a = rope._clamp(0 if k.start is None else k.start, self.n)
            b = rope._clamp(self.n if k.stop is None else k.stop, self.n)
            self.ba[self.off + a:self.off + b] = lift_bytes(v)
        else:
            self.ba[self.off + k] = v

    def tobytes(self):
        return self.ba.val[self.off:self.off + self.n]

    def _readinto(self, f):
        d = f.read(self.n)
        n = d.sym_len()
        self.ba[self.off:self.off + n] = d
        return n

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def v_ord(c):
    if isinstance(c, SymStr):
        cs = c.chars()
        if len(cs) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(cs))
        return cs[0]
    if isinstance(c, SymBytes):
        return c[0]
    return ord(c)


def v_chr(i):
    if isinstance(i, SymInt):
        if i.bv is None:
            raise Unsupported("chr of unbounded int")
        return SymStr((i, ))
    return chr(i)


def v_print(*args, sep=" ", end="\n", file=None, flush=False):
    sep = " " if sep is None else sep
    end = "\n" if end is None else end
    parts = []
    for k, a in enumerate(args):
        if k:
            parts.append(sep)
        parts.append(to_text(a))
    parts.append(end)
    t = rope.concat_text(parts)
    if file is None or file is _sys.stdout:
        files.fs().stdout.append(t)
    elif file is _sys.stderr:
        files.fs().stderr.append(t)
    else:
        file.write(t)


class StdStream:
    _is_sym = True
    encoding = "utf-8"

    def __init__(self, name):
        self.name = name

    def write(self, t):
        getattr(files.fs(), self.name).append(t)
        return v_len(t)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def reconfigure(self, *a, **k):
        pass


class SysProxy(types.ModuleType):
    def __init__(self):
        super().__init__("sys")
        self.__dict__["stdout"] = StdStream("stdout")
        self.__dict__["stderr"] = StdStream("stderr")

    def __getattr__(self, name):
        if name == "stdin":
            return files.sym_open(0)
        return getattr(_sys, name)


def v_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def v_minmax(lt):
    def f(*args, key=None, default=_MISS):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if default is not _MISS:
                return default
            raise ValueError("arg is an empty sequence")
        ks = [V.call(key, x) for x in xs] if key else xs
        best = 0
        if key is None and all(isinstance(x, (int, SymInt)) for x in xs) and any(
                isinstance(x, SymInt) and x.bv is None for x in xs) and not any(
                    isinstance(x, SymInt) and x.bv is not None for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = core.ite_int(x < r if lt else x > r, x, r)
            return r
        for i in range(1, len(xs)):
            if bool(ks[i] < ks[best]) if lt else bool(ks[i] > ks[best]):
                best = i
        return xs[best]
    return f


def v_sorted(it, *, key=None, reverse=False):
    xs = list(it)
    if key is not None:
        key = wrap(key)
    return sorted(xs, key=key, reverse=reverse)


def v_hash(x):
    return hash(x)


def v_repr(x):
    if is_sym(x):
        return fmt_value(x, "r", "")
    for f in (getattr(type(x), "__repr__", None), ):
        if isinstance(f, types.FunctionType) and type(x).__module__.startswith("finalfusion"):
            return f(x)
    if contains_sym(x):
        return "<repr>"
    return repr(x)


def v_round(x, n=None):
    if is_sym(x):
        f = getattr(type(x), "__round__", None)
        if f is None:
            raise Unsupported("round")
        return f(x) if n is None else f(x, n)
    return round(x, n) if n is not None else round(x)


def v_format(x, spec=""):
    return fmt_value(x, None, spec)


def v_dict(*a, **k):
    return SymDict(*a, **k)


def v_set(it=()):
    return SymSet(it)


def v_frozenset(it=()):
    return SymFrozenSet(it)


def v_map(f, *its):
    f = wrap(f)
    return map(f, *its)


def v_filter(f, it):
    return filter(wrap(f) if f is not None else None, it)


def v_slice(*a):
    return slice(*a)


def v_divmod(a, b):
    return (a // b, a % b)


def v_pow(a, b, m=None):
    return a ** b if m is None else pow(a, b, m)


def v_next(it, *d):
    return next(it, *d)


def v_zip(*its, strict=False):
    return zip(*its, strict=strict)


def v_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, SymByteArray):
        b = b.val
    if isinstance(b, SymBytes):
        n = b.sym_len()
        n = n if isinstance(n, int) else n.__index__()
        return files.read_int(list(b.segs), n, byteorder == "big", signed)
    return int.from_bytes(b, byteorder, signed=signed)


# -- os


def _node(p):
    return files.fs().nodes.get(files._path(p))


def os_exists(p):
    return _node(p) is not None


class _Stat:
    def __init__(self, size):
        self.st_size = size


def os_stat(p, *a, **k):
    if isinstance(p, files.Fileno):
        return _Stat(p.f.node.size())
    n = _node(p)
    if n is None:
        raise FileNotFoundError(2, "No such file or directory")
    return _Stat(n.size())


def os_getsize(p):
    return os_stat(p).st_size


def os_rename(a, b, *x, **k):
    f = files.fs()
    a, b = files._path(a), files._path(b)
    if a not in f.nodes:
        raise FileNotFoundError(2, "No such file or directory", a)
    f.nodes[b] = f.nodes.pop(a)


def os_remove(p, *x, **k):
    f = files.fs()
    p = files._path(p)
    if p not in f.nodes:
        raise FileNotFoundError(2, "No such file or directory", p)
    del f.nodes[p]


def path_method(p, name):
    def m(*a, **k):
        if name == "open":
            return files.sym_open(p, *a, **k)
        if name == "read_bytes":
            with files.sym_open(p, "rb") as f:
                return f.read()
        if name == "read_text":
            with files.sym_open(p, "r", encoding=k.get("encoding") or (a[0] if a else None)) as f:
                return f.read()
        if name == "write_bytes":
            with files.sym_open(p, "wb") as f:
                return f.write(a[0])
        if name in ("exists", "is_file"):
            return os_exists(p)
        if name == "stat":
            return os_stat(p)
        if name == "unlink":
            return os_remove(p)
        if name in ("rename", "replace"):
            return os_rename(p, a[0])
        raise Unsupported("Path.%s" % name)
    return m


PATH_NAMES = {"open", "read_bytes", "read_text", "write_bytes", "write_text", "exists", "is_file", "stat", "unlink",
              "rename", "replace", "mkdir", "touch", "iterdir", "is_dir"}


def v_open(*a, **k):
    return files.sym_open(*a, **k)


def v_reduce(f, it, *init):
    return functools.reduce(wrap(f), it, *init)


def v_partial(f, *a, **k):
    return functools.partial(wrap(f), *a, **k)


def v_enum(cls, value):
    if is_sym(value):
        for m in cls:
            if isinstance(value, SymStr) and not isinstance(m.value, str):
                continue
            if isinstance(value, SymInt) and not isinstance(m.value, int):
                continue
            if bool(value == m.value):
                return m
        f = cls.__dict__.get("_missing_")
        if f is not None:
            r = cls._missing_(value)
            if isinstance(r, cls):
                return r
        raise ValueError("%s is not a valid %s" % ("<value>", cls.__name__))
    return cls(value)


def _unsup(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


import collections as _collections  # noqa: E402
import math as _math  # noqa: E402


def v_prod(it, *, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def v_msqrt(x):
    return core.sqrt(x) if is_sym(x) else _math.sqrt(x)


def v_counter(it=None):
    if it is None or not contains_sym(list(it) if not isinstance(it, (list, dict)) else it):
        return _collections.Counter(it)
    raise Unsupported("Counter")


def _mathfn(name):
    fn = getattr(_math, name)

    def f(x, *a):
        if isinstance(x, SymInt) and name in ("floor", "ceil", "trunc"):
            return x
        if isinstance(x, SymReal) and name == "floor":
            return mkint(z3.ToInt(x.e))
        if isinstance(x, SymReal) and name == "ceil":
            return mkint(-z3.ToInt(-x.e))
        if isinstance(x, SymReal) and name == "isnan":
            return x.e is None
        if is_sym(x):
            raise Unsupported("math.%s" % name)
        return fn(x, *a)
    return f


import copy as _copy  # noqa: E402


def v_deepcopy(x, memo=None):
    if isinstance(x, (SymInt, SymReal, SymStr, SymBytes, SymBool)):
        return x
    return _copy.deepcopy(x)


TABLE = {
    len: v_len, range: v_range, isinstance: v_isinstance, type: v_type, int: v_int, float: v_float, bool: v_bool,
    str: v_str, bytes: v_bytes, bytearray: v_bytearray, memoryview: v_memoryview, ord: v_ord, chr: v_chr,
    print: v_print, sum: v_sum, min: v_minmax(True), max: v_minmax(False), sorted: v_sorted, repr: v_repr,
    round: v_round, format: v_format, dict: v_dict, set: v_set, frozenset: v_frozenset, map: v_map, filter: v_filter,
    open: v_open, _io.open: v_open, divmod: v_divmod, pow: v_pow, int.from_bytes: v_from_bytes,
    _struct.pack: files.pack, _struct.unpack: files.unpack, _struct.calcsize: files.calcsize,
    _struct.unpack_from: files.unpack_from, _struct.pack_into: files.pack_into, _struct.iter_unpack: files.iter_unpack,
    _struct.Struct: files.SymStruct, _io.BytesIO: files.bytesio,
    _os.path.exists: os_exists, _os.path.isfile: os_exists, _os.path.getsize: os_getsize, _os.stat: os_stat,
    _os.fstat: os_stat, _os.rename: os_rename, _os.replace: os_rename, _os.remove: os_remove, _os.unlink: os_remove,
    functools.reduce: v_reduce, functools.partial: v_partial, _os.fspath: files._path,
    _os.open: _unsup("os.open"), _os.mkdir: _unsup("os.mkdir"), _os.makedirs: _unsup("os.makedirs"),
    _collections.OrderedDict: v_dict, _collections.defaultdict: SymDefaultDict, _collections.Counter: v_counter,
    _math.prod: v_prod, _math.sqrt: v_msqrt, _copy.deepcopy: v_deepcopy, _os.fsync: lambda fd: None,
    functools.cmp_to_key: lambda f: functools.cmp_to_key(wrap(f)),
}
for _n in ("floor", "ceil", "trunc", "isnan", "isinf", "isfinite", "log", "exp", "fabs", "hypot", "log2", "log10"):
    TABLE[getattr(_math, _n)] = _mathfn(_n)

try:
    import toml as _toml
    TABLE[_toml.dumps] = toml_dumps
    TABLE[_toml.loads] = toml_loads
except ImportError:
    _toml = None

TABLE_IDS = {id(k): v for k, v in TABLE.items()}
for _n in ("compile", "split", "sub", "match", "search", "fullmatch", "findall", "finditer"):
    pass


def re_func(name):
    def f(pattern, *a, **k):
        p = _re.compile(pattern) if isinstance(pattern, str) else pattern
        k.pop("flags", None)
        return sre.method(p, name)(*a, **k)
    return f


RE_FUNCS = {id(getattr(_re, n)): re_func(n) for n in ("split", "sub", "match", "search", "fullmatch", "findall",
                                                      "finditer")}


def wrap(f):
    """a built-in passed as a value -> its symbolic version"""
    if isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    return lambda *a, **k: V.call(f, *a, **k)


_BOUND = (types.BuiltinFunctionType, )
_SLOT = (types.MethodDescriptorType, types.WrapperDescriptorType, types.ClassMethodDescriptorType)
_MW = type("".__add__)


class _V:
    Ctl = Ctl
    SymDict = SymDict

    def call(self, f, *args, **kw):
        t = type(f)
        if t is types.FunctionType:
            if id(f) in RE_FUNCS and contains_sym((args, kw)):
                return RE_FUNCS[id(f)](*args, **kw)
            g = TABLE_IDS.get(id(f))
            if g is not None:
                return g(*args, **kw)
            return f(*args, **kw)
        if t is types.MethodType:
            s = f.__self__
            if isinstance(s, pathlib.PurePath) and f.__name__ in PATH_NAMES:
                return path_method(s, f.__name__)(*args, **kw)
            return f(*args, **kw)
        g = TABLE_IDS.get(id(f))
        if g is not None:
            return g(*args, **kw)
        try:
            g = TABLE.get(f) if t in _BOUND or t is type else None
        except TypeError:
            g = None
        if g is not None:
            return g(*args, **kw)
        if isinstance(f, enum.EnumMeta) and len(args) == 1 and not kw:
            return v_enum(f, args[0])
        if t is type and f.__module__ == "numpy" and len(args) == 1 and not kw and contains_sym(args):
            import numpy
            if issubclass(f, numpy.generic):  # a scalar type used as a conversion
                from . import arr
                return arr.array(args[0], dtype=f)[()]
        if t in _BOUND or t is _MW:
            s = f.__self__
            name = f.__name__
            if isinstance(s, str) and name == "join" and len(args) == 1:
                xs = list(args[0])
                if any(isinstance(x, SymStr) for x in xs):
                    return lift_str(s).join(xs)
                return s.join(xs)
            if isinstance(s, bytes) and name == "join" and len(args) == 1:
                xs = list(args[0])
                if any(is_sym(x) for x in xs):
                    return lift_bytes(s).join(xs)
                return s.join(xs)
            if isinstance(s, (str, bytes)) and (contains_sym(args) or contains_sym(kw)):
                if isinstance(s, str):
                    if name == "format":
                        return rope.str_format(s, args, kw)
                    return getattr(lift_str(s), name)(*args, **kw)
                return getattr(lift_bytes(s), name)(*args, **kw)
            if isinstance(s, int) and not isinstance(s, bool) and name == "from_bytes":
                return v_from_bytes(*args, **kw)
            if isinstance(s, type) and name == "fromkeys":
                v = args[1] if len(args) > 1 else None
                return SymDict([(k, v) for k in args[0]])
            if isinstance(s, type) and name == "from_bytes":
                return v_from_bytes(*args, **kw)
            if isinstance(s, _re.Pattern) and contains_sym((args, kw)):
                return sre.method(s, name)(*args, **kw)
            if isinstance(s, list) and name == "sort" and kw.get("key") is not None:
                kw["key"] = wrap(kw["key"])
            if isinstance(s, (int, float)) and contains_sym(args) and name.startswith("__"):
                return f(*args, **kw)
            return f(*args, **kw)
        if t in _SLOT:
            oc = getattr(f, "__objclass__", None)
            if args and oc in (str, bytes, int, float) and contains_sym(args):
                x = args[0]
                if isinstance(x, str):
                    x = lift_str(x)
                elif isinstance(x, bytes):
                    x = lift_bytes(x)
                return self.call(getattr(x, f.__name__), *args[1:], **kw)
            return f(*args, **kw)
        return f(*args, **kw)

    def fstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                out.append(fmt_value(v, conv, spec))
        return rope.concat_text(out)

    def contains(self, x, c):
        if isinstance(c, str) and isinstance(x, SymStr):
            return bool(lift_str(c).find(x) >= 0)
        if isinstance(c, bytes) and is_sym(x):
            return x in lift_bytes(c)
        if isinstance(c, dict) and not isinstance(c, SymDict) and (symkey(x) or any(symkey(k) for k in c)):
            return any(keq(k, x) for k in c)
        if isinstance(c, (set, frozenset)) and not isinstance(c, SymSet) and (symkey(x) or any(symkey(k) for k in c)):
            return any(keq(k, x) for k in c)
        if isinstance(c, range) and isinstance(x, SymInt):
            return any(keq(k, x) for k in c) if len(c) <= 300 else bool(And(x >= c.start, x < c.stop))
        if isinstance(c, enum.EnumMeta) and is_sym(x):
            return any(keq(m.value, x) for m in c)
        return x in c

    def notcontains(self, x, c):
        return not self.contains(x, c)

    def mod(self, a, b):
        if isinstance(a, (str, SymStr)):
            if isinstance(a, SymStr) or contains_sym(b):
                return rope.str_mod(a, b)
            if not isinstance(b, (tuple, dict)):
                return a % (to_text(b), ) if hasattr(b, "__dict__") and "%s" in a else a % b
            return a % b
        if isinstance(a, bytes) and contains_sym(b):
            raise Unsupported("bytes % symbolic")
        return a % b

    def add(self, a, b):
        return a + b

    def mkdict(self, pairs):
        return SymDict(pairs)

    def mkdict2(self, parts):
        """parts: ('kv', k, v) or ('**', mapping)"""
        d = SymDict()
        for p in parts:
            if p[0] == "kv":
                d[p[1]] = p[2]
            else:
                d.update(p[1])
        return d

    def mkset(self, it):
        return SymSet(it)

    def unstar(self, x):
        return x


V = _V()
