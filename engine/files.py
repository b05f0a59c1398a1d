"""Symbolic file system, files and struct."""
import io as _io
import os as _os
import struct as _struct

import z3

from . import core, rope
from .core import (SymInt, SymReal, SymBool, Unsupported, BoundExceeded, And, Or, Not, mkint, mkbool, ctx, int_expr)
from .rope import (SymBytes, SymStr, Lit, Num, NumB, Fill, Chr, ChrB, TokS, Blob, IntText, lift_bytes, lift_str,
                   split_segs, seg_total, same_term)

# ------------------------------------------------------------------ struct

STD = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8,
       "e": 2, "f": 4, "d": 8, "s": 1, "p": 1}
NAT = dict(STD, l=8, L=8, n=8, N=8, P=8)
SIGNED = "bhilqn"
UNSIGNED = "BHILQN"


def parse_fmt(fmt):
    """-> (swapped, native, [(count, code)])"""
    if isinstance(fmt, rope.SymBytes):
        fmt = fmt.decode("ascii")
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    items = lift_str(fmt).items
    k = 0
    order = "@"
    if items and isinstance(items[0], int) and chr(items[0]) in "@=<>!":
        order = chr(items[0])
        k = 1
    native = order == "@"
    swapped = order in ">!"
    out = []
    count = None
    digits = ""
    while k < len(items):
        it = items[k]
        if isinstance(it, IntText):
            if digits or count is not None:
                raise Unsupported("struct format count")
            count = it.v
        elif isinstance(it, int):
            ch = chr(it)
            if ch.isdigit():
                if count is not None:
                    raise Unsupported("struct format count")
                digits += ch
            elif ch.isspace():
                pass
            else:
                if ch not in (NAT if native else STD):
                    raise _struct.error("bad char in struct format")
                out.append((int(digits) if digits else (1 if count is None else count), ch, bool(digits) or count is not None))
                digits, count = "", None
        else:
            raise Unsupported("symbolic struct format")
        k += 1
    if digits or count is not None:
        raise _struct.error("repeat count given without format specifier")
    return swapped, native, out


def _align(n, size):
    """padding needed to align n to size"""
    if isinstance(n, int):
        return (-n) % size
    return (0 - n) % size


def calcsize(fmt):
    swapped, native, items = parse_fmt(fmt)
    n = 0
    for count, ch, _ in items:
        size = (NAT if native else STD)[ch]
        if native and size > 1:
            n = n + _align(n, size)
        n = n + count * size
    return n


def pack(fmt, *args):
    swapped, native, items = parse_fmt(fmt)
    segs = []
    args = list(args)
    total = 0
    for count, ch, explicit in items:
        size = (NAT if native else STD)[ch]
        if native and size > 1:
            p = _align(total, size)
            if not (isinstance(p, int) and p == 0):
                segs.append(Fill(p))
                total = total + p
        if ch == "x":
            segs.append(Fill(count))
            total = total + count
            continue
        if ch == "s":
            if not args:
                raise _struct.error("pack expected more items")
            v = lift_bytes(args.pop(0))
            n = v.sym_len()
            if bool(n >= count):
                segs.extend(v[:count].segs)
            else:
                segs.extend(v.segs)
                segs.append(Fill(count - n))
            total = total + count
            continue
        if not isinstance(count, int):
            if bool(count == len(args)):
                count = len(args)
            else:
                count = count.__index__()
        for _ in range(count):
            if not args:
                raise _struct.error("pack expected more items")
            segs.append(pack_one(ch, size, args.pop(0), swapped))
            total = total + size
    if args:
        raise _struct.error("pack expected fewer items")
    return SymBytes(segs)


def pack_one(ch, size, v, swapped):
    sw = swapped and size > 1
    if ch == "?":
        return Num("i", 1 if v else 0, 1) if not isinstance(v, (bool, int)) else Lit(bytes([1 if v else 0]))
    if ch == "c":
        return lift_bytes(v).segs[0]
    if ch in "fde":
        if isinstance(v, (SymReal, SymInt)):
            return fnum(v if isinstance(v, SymReal) else SymReal(z3.ToReal(v.e)), size, sw)
        return Lit(_struct.pack((">" if sw else "<") + ch, v))
    if isinstance(v, SymBool):
        v = v._int()
    v = core._conv(v)
    bits = 8 * size
    lo, hi = (-(1 << (bits - 1)), 1 << (bits - 1)) if ch in SIGNED else (0, 1 << bits)
    if isinstance(v, int):
        if not lo <= v < hi:
            raise _struct.error("'%s' format requires %d <= number <= %d" % (ch, lo, hi - 1))
        return Lit((v % (1 << bits)).to_bytes(size, "big" if sw else "little"))
    if isinstance(v, SymInt):
        if not bool(And(v >= lo, v < hi)):
            raise _struct.error("format requires %d <= number <= %d" % (lo, hi - 1))
        return Num("i", v, size, sw)
    raise _struct.error("required argument is not an integer")


def unpack(fmt, buf):
    swapped, native, items = parse_fmt(fmt)
    buf = lift_bytes(buf)
    need = calcsize(fmt)
    have = buf.sym_len()
    if not (same_term(need, have) or bool(have == need)):
        raise _struct.error("unpack requires a buffer of %s bytes" % (need, ))
    return tuple(_unpack_items(swapped, native, items, list(buf.segs)))


def _unpack_items(swapped, native, items, segs):
    out = []
    total = 0
    for count, ch, explicit in items:
        size = (NAT if native else STD)[ch]
        if native and size > 1:
            p = _align(total, size)
            if not (isinstance(p, int) and p == 0):
                _, segs = split_segs(segs, p)
                total = total + p
        if ch == "x":
            _, segs = split_segs(segs, count)
            total = total + count
            continue
        if ch == "s":
            a, segs = split_segs(segs, count)
            out.append(SymBytes(a))
            total = total + count
            continue
        if not isinstance(count, int):
            count = count.__index__()
        for _ in range(count):
            a, segs = split_segs(segs, size)
            out.append(unpack_one(ch, size, a, swapped))
            total = total + size
    return out


def unpack_one(ch, size, segs, swapped):
    sw = swapped and size > 1
    if ch == "c":
        return SymBytes(segs)
    if ch in "fde":
        return read_float(segs, size, sw)
    v = read_int(segs, size, sw, ch in SIGNED)
    if ch == "?":
        return v != 0
    return v


def read_int(segs, size, sw, signed):
    segs = rope._merge(segs)
    m = 1 << (8 * size)
    if len(segs) == 1 and isinstance(segs[0], Lit):
        return int.from_bytes(segs[0].b, "big" if sw else "little", signed=signed)
    if len(segs) == 1 and isinstance(segs[0], Num) and segs[0].kind == "i" and segs[0].size == size and (
            segs[0].swapped == sw or size == 1):
        v = segs[0].v
    else:
        v = 0
        us = []
        for s in segs:
            if isinstance(s, (TokS, Blob, Fill)):
                n = s.length()
                n = n if isinstance(n, int) else n.__index__()
                r = [s]
                while n > 1:
                    a, b = r[-1].split(1)
                    r[-1:] = [a, b]
                    n -= 1
                us.extend(r)
            else:
                us.extend(SymBytes([s]).units())
        if len(us) != size:
            raise Unsupported("integer from %d units" % len(us))
        for k, u in enumerate(us):
            b = rope.byte_value(u)
            if isinstance(b, SymInt):
                b = mkint(b.e)
            v = v + b * (1 << (8 * (size - 1 - k if sw else k)))
        if isinstance(v, int):
            v %= m
    if isinstance(v, int):
        v %= m
        return v - m if signed and v >= m // 2 else v
    c = ctx()
    if signed:
        if c.must(And(v >= -(m // 2), v < m // 2)):
            return v
        return mkint(z3.If(v.e >= m // 2, v.e - m, v.e))
    if c.must(v >= 0):
        return v
    return mkint(z3.If(v.e < 0, v.e + m, v.e))


def fnum(v, size, sw):
    """Num segment of a float, canonical w.r.t. byte swapping."""
    if not isinstance(v, SymReal):
        if isinstance(v, (int, float)):
            return Lit(_struct.pack((">" if sw else "<") + {4: "f", 8: "d", 2: "e"}[size], v))
    if v.e is None:
        return Num("f", v, size, sw)
    if z3.is_rational_value(v.e):
        try:
            f = float(v.e.as_fraction())
            b = _struct.pack((">" if sw else "<") + {4: "f", 8: "d", 2: "e"}[size], f)
            if core.Fraction(_struct.unpack((">" if sw else "<") + {4: "f", 8: "d", 2: "e"}[size], b)[0]) == \
                    v.e.as_fraction():
                return Lit(b)
        except OverflowError:
            pass
    orig = ctx().memo.get(("swapof", size, v.e.get_id()))
    if orig is not None:
        return Num("f", orig[0], size, not sw)
    return Num("f", v, size, sw)


def swap_val(v, size):
    """The float whose bytes are the reverse of v's bytes."""
    if not isinstance(v, SymReal):
        v = SymReal(core.real_expr(v))
    if v.e is None:
        return v
    if z3.is_rational_value(v.e) and v.e.as_fraction() == 0:
        return v
    c = ctx()
    orig = c.memo.get(("swapof", size, v.e.get_id()))
    if orig is not None:
        return orig[0]
    key = ("swap", size, v.e.get_id())
    if key not in c.memo:
        w = SymReal(z3.Real(c.fresh("swapped")))
        c.memo[key] = (w, v)
        c.memo[("swapof", size, w.e.get_id())] = (v, w)
    return c.memo[key][0]


def read_float(segs, size, sw):
    segs = rope._merge(segs)
    if len(segs) == 1:
        s = segs[0]
        if isinstance(s, Num) and s.kind == "f" and s.size == size:
            return s.v if s.swapped == sw else swap_val(s.v, size)
        if isinstance(s, Lit) and len(s.b) == size:
            f = _struct.unpack((">" if sw else "<") + {4: "f", 8: "d", 2: "e"}[size], s.b)[0]
            return SymReal(core.real_expr(f))
        if isinstance(s, Fill):
            return SymReal(z3.RealVal(0))
    c = ctx()
    key = ("float", size, sw, repr(segs))
    if key not in c.memo:
        c.imprecise.append("float read from other data")
        c.memo[key] = SymReal(z3.Real(c.fresh("rawfloat")))
    return c.memo[key]


class SymStruct:
    """struct.Struct"""

    def __init__(self, fmt):
        self.format = fmt
        parse_fmt(fmt)

    @property
    def size(self):
        return calcsize(self.format)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        return iter_unpack(self.format, b)

    def pack_into(self, buf, off, *a):
        return pack_into(self.format, buf, off, *a)


def unpack_from(fmt, buf, offset=0):
    b = lift_bytes(buf)
    n = calcsize(fmt)
    if not bool(b.sym_len() - offset >= n):
        raise _struct.error("unpack_from requires a buffer of at least %s bytes" % (n, ))
    return unpack(fmt, b[offset:offset + n])


def pack_into(fmt, buf, offset, *args):
    d = pack(fmt, *args)
    n = d.sym_len()
    if not bool(buf.sym_len() - offset >= n):
        raise _struct.error("pack_into requires a larger buffer")
    buf[offset:offset + n] = d


def iter_unpack(fmt, buf):
    n = calcsize(fmt)
    b = lift_bytes(buf)
    while bool(b.sym_len() > 0):
        if bool(b.sym_len() < n):
            raise _struct.error("iterative unpacking requires a multiple")
        yield unpack(fmt, b[:n])
        b = b[n:]


# ------------------------------------------------------------------- files


class Node:
    def __init__(self, segs=(), limit=None):
        self.segs = list(segs)
        self.limit = limit

    def size(self):
        return self.limit if self.limit is not None else seg_total(self.segs)

    def rope(self):
        if self.limit is not None:
            a, _ = split_segs(self.segs, self.limit)
            return SymBytes(a)
        return SymBytes(self.segs)


class FS:
    def __init__(self):
        self.nodes = {}
        self.stdin = None
        self.stdout = []
        self.stderr = []
        self.opened = []
        self.fds = {}


def fs():
    return ctx().fs


def _path(p):
    if isinstance(p, SymStr):
        c = p.concrete()
        if c is None:
            raise Unsupported("symbolic path")
        return c
    if isinstance(p, bytes):
        return p.decode()
    if isinstance(p, int):
        return p
    return _os.fspath(p)


def sym_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(mode, SymStr):
        mode = mode.concrete()
    f = fs()
    path = _path(file)
    binary = "b" in mode
    base = mode.replace("b", "").replace("t", "")
    if encoding is not None:
        enc = rope._norm_enc(encoding)
    else:
        enc = getattr(f, "locale", "utf-8")
    if isinstance(errors, SymStr):
        errors = errors.concrete()
    if path == 0:
        if f.stdin is None:
            raise Unsupported("stdin")
        node = f.stdin
    elif isinstance(path, int):
        if path not in f.fds:
            raise OSError(9, "Bad file descriptor")
        node, writable = f.fds.pop(path)
        if base.startswith("w") != writable:
            raise Unsupported("mode of a file descriptor")
    elif base.startswith("r"):
        if path not in f.nodes:
            raise FileNotFoundError(2, "No such file or directory", path)
        node = f.nodes[path]
    elif base.startswith("w"):
        node = f.nodes[path] = Node()
    elif base.startswith("x"):
        if path in f.nodes:
            raise FileExistsError(17, "File exists", path)
        node = f.nodes[path] = Node()
    elif base.startswith("a"):
        node = f.nodes.setdefault(path, Node())
    else:
        raise ValueError("invalid mode")
    f.opened.append((path, mode))
    fl = SymFile(node, file if isinstance(file, bytes) else path, mode, readable="r" in base or "+" in base, writable=not base == "r")
    if base.startswith("a"):
        fl.seek(0, 2)
    if binary:
        return fl
    return SymText(fl, enc, errors or "strict", newline)


def _lb(seg):
    l = seg.length()
    if isinstance(l, int):
        return l
    return 1 if isinstance(seg, Chr) else 0


def enough(rest, n):
    """True if provably n <= total(rest) without the solver."""
    rem = n
    for s in rest:
        if isinstance(rem, int):
            if rem <= 0:
                return True
            rem -= _lb(s)
        else:
            rem = rem - s.length()
    return isinstance(rem, int) and rem <= 0


class SymFile:
    _is_sym = True

    def __init__(self, node, name, mode="rb", readable=True, writable=True):
        self.node = node
        self.name = name
        self.mode = mode
        self.pos = 0
        self.rest = list(node.segs)
        self.closed = False
        self._r, self._w = readable, writable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return Fileno(self)

    def isatty(self):
        return False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def tell(self):
        self._chk()
        return self.pos

    def avail(self):
        if self.node.limit is not None:
            return self.node.limit - self.pos
        return seg_total(self.rest)

    def seek(self, off, whence=0):
        self._chk()
        if whence == 1:
            new = self.pos + off
        elif whence == 2:
            new = self.node.size() + off
        else:
            new = off
        if isinstance(new, int):
            if new < 0:
                raise OSError(22, "Invalid argument")
        elif not ctx().must(new >= 0):
            if bool(new < 0):
                raise OSError(22, "Invalid argument")
        self._goto(new)
        return new

    def _goto(self, new):
        if whence_forward(self.pos, new):
            d = new - self.pos
            if isinstance(d, int) and d == 0:
                self.pos = new
                return
            total = seg_total(self.rest)
            if enough(self.rest, d) or bool(d <= total):
                _, self.rest = split_segs(self.rest, d)
            else:
                self.rest = []
        else:
            total = seg_total(self.node.segs)
            if enough(self.node.segs, new) or bool(new <= total):
                _, self.rest = split_segs(self.node.segs, new)
            else:
                self.rest = []
        self.pos = new

    def read(self, n=-1):
        self._chk()
        if not self._r:
            raise _io.UnsupportedOperation("not readable")
        if n is None:
            n = -1
        n = core._conv(n)
        if isinstance(n, (SymReal, float)):
            raise TypeError("integer argument expected, got 'float'")
        av = None
        if (isinstance(n, int) and n < 0) or (not isinstance(n, int) and not ctx().must(n >= 0) and bool(n < 0)):
            n = self.avail()
            if not isinstance(n, int) and bool(n < 0):
                n = 0
            elif isinstance(n, int) and n < 0:
                n = 0
        elif self.node.limit is None and enough(self.rest, n):
            pass
        else:
            av = self.avail()
            if isinstance(av, int) and isinstance(n, int):
                n = min(n, max(0, av))
            elif bool(n <= av):
                pass
            else:
                n = av if bool(av > 0) else 0
        if isinstance(n, int) and n == 0:
            return SymBytes([])
        a, self.rest = split_segs(self.rest, n)
        self.pos = self.pos + n
        return SymBytes(a)

    read1 = read

    def peek(self, n=1):
        p, r = self.pos, self.rest
        d = self.read(n)
        self.pos, self.rest = p, r
        return d

    def readinto(self, buf):
        if isinstance(buf, rope.SymByteArray):
            d = self.read(buf.sym_len())
            n = d.sym_len()
            buf[:n] = d
            return n
        if hasattr(buf, "_readinto"):
            return buf._readinto(self)
        raise Unsupported("readinto")

    def readline(self, size=-1):
        self._chk()
        out = []
        while True:
            b = self.read(1) if not (self.rest and isinstance(self.rest[0], (TokS, )) and isinstance(
                self.rest[0].tok, (rope.IntText, rope.FloatText)) and self.node.limit is None) else self._read_seg()
            if isinstance(b.sym_len(), int) and b.sym_len() == 0:
                break
            out.extend(b.segs)
            if len(b.segs) == 1 and isinstance(b.segs[0], TokS):
                continue
            if bool(b == b"\n"):
                break
        return SymBytes(out)

    def _read_seg(self):
        s = self.rest[0]
        self.rest = self.rest[1:]
        self.pos = self.pos + s.length()
        return SymBytes([s])

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def write(self, data):
        self._chk()
        if not self._w:
            raise _io.UnsupportedOperation("not writable")
        if hasattr(data, "_is_symnd"):
            data = data.tobytes()
        if isinstance(data, (str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        d = lift_bytes(data)
        n = d.sym_len()
        if self.node.limit is not None:
            raise Unsupported("write to truncated file")
        if not self.rest:
            size = seg_total(self.node.segs)
            gap = self.pos - size
            if not (isinstance(gap, int) and gap == 0) and bool(gap > 0):
                self.node.segs.append(Fill(gap))
            self.node.segs.extend(d.segs)
        else:
            head, tail = split_segs(self.node.segs, self.pos)
            total = seg_total(tail)
            if bool(n <= total):
                _, tail = split_segs(tail, n)
            else:
                tail = []
            self.node.segs = list(rope._merge(list(head) + list(d.segs) + list(tail)))
            self.rest = list(tail)
        self.pos = self.pos + n
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        a, _ = split_segs(self.node.segs, size)
        self.node.segs = list(a)
        self._goto(self.pos)
        return size

    # BytesIO
    def getvalue(self):
        return SymBytes(self.node.segs)

    def getbuffer(self):
        return SymBytes(self.node.segs)


class Fileno:
    _is_sym = True

    def __init__(self, f):
        self.f = f


def whence_forward(pos, new):
    if pos is new:
        return True
    if isinstance(pos, int) and pos == 0:
        return True
    d = new - pos
    if isinstance(d, int):
        return d >= 0
    return bool(d >= 0)


class SymText:
    _is_sym = True

    def __init__(self, raw, enc, errors, newline):
        self.raw = raw
        self.name = raw.name
        self.enc, self.errors, self.newline = enc, errors, newline
        self.items = None
        self.k = 0
        self.encoding = enc
        self.closed = False
        self.mode = raw.mode

    @property
    def buffer(self):
        return self.raw

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def isatty(self):
        return False

    def write(self, s):
        if not rope.is_strlike(s):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        s = lift_str(s)
        enc = self.enc
        if enc == "utf-8-sig" and not (isinstance(self.raw.pos, int) and self.raw.pos == 0):
            enc = "utf-8"
        self.raw.write(s.encode(enc, self.errors))
        return s.sym_len()

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def _load(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.items is None:
            text = self.raw.read().decode(self.enc, self.errors)
            items = list(text.items)
            if self.newline is None:
                out = []
                k = 0
                while k < len(items):
                    it = items[k]
                    if not isinstance(it, rope.Tok) and bool(it == 13):
                        out.append(10)
                        if k + 1 < len(items) and not isinstance(items[k + 1], rope.Tok) and bool(items[k + 1] == 10):
                            k += 1
                    else:
                        out.append(it)
                    k += 1
                items = out
            elif self.newline not in ("", "\n"):
                raise Unsupported("newline=")
            self.items = items

    def read(self, n=-1):
        self._load()
        if n is None or n < 0:
            r = SymStr(self.items[self.k:])
            self.k = len(self.items)
            return r
        r = SymStr(self.items[self.k:self.k + n])
        r.chars()
        self.k += len(r.items)
        return r

    def readline(self, *a):
        self._load()
        out = []
        while self.k < len(self.items):
            it = self.items[self.k]
            self.k += 1
            out.append(it)
            if isinstance(it, rope.Tok):
                if isinstance(it, rope.Atom):
                    raise Unsupported("line splitting of arbitrary text")
                continue
            if bool(it == 10):
                break
        return SymStr(out)

    def readlines(self, *a):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l.items:
            raise StopIteration
        return l

    def seek(self, off, whence=0):
        if whence == 0 and isinstance(off, int) and off == 0:
            self.items = None
            self.k = 0
            self.raw.seek(0)
            return 0
        if whence == 0 and isinstance(off, TextPos):
            self._load()
            self.k = off.k
            return off
        raise Unsupported("text seek")

    def tell(self):
        return TextPos(self.k)

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.raw.fileno()


class TextPos:
    _is_sym = True

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, TextPos) and self.k == o.k or (isinstance(o, int) and self.k == 0 == o)


def bytesio(init=b""):
    n = Node(list(lift_bytes(init).segs))
    return SymFile(n, "<BytesIO>")
