"""The two environments a harness runs in.

``S``: symbolic -- inputs are solver variables, the package is the instrumented
source of /repo, assertions are solver queries.
``R``: real -- the same harness, inputs taken from a solver model, the real
package (extensions rebuilt from the working tree) and real numpy."""
import importlib
import io
import os
import sys
import tempfile
import traceback
from fractions import Fraction


class Fail(Exception):
    """An assertion of the harness failed on the real code."""


NINE = (15.2687645, 12.4777355, 15.7601595, 0.116764985, 0.105751745, 0.120503075, 14.0000086)


def jitter(x, mode, key):
    """numbers near x: with all digits in use (1, 2), close to each other (3, 4), or in need of nine digits (5)"""
    if not mode:
        return x
    h = hash_text("%s %d" % (key, mode)) / 2.0**32
    if mode == 5:
        return (-1 if x < 0 else 1) * NINE[int(h * len(NINE))]
    if mode <= 2:
        return x * (1 + (h - 0.5) / 50) * (1 if mode == 1 else 1e-3)
    return (-1 if x < 0 else 1) * (1 + (h - 0.5) * (1e-5 if mode == 3 else 2e-4))


def hash_text(s):
    h = 2166136261
    for c in s.encode():
        h = (h ^ c) * 16777619 & 0xffffffff
    return h


class Skip(Exception):
    """The concrete input does not satisfy the harness's assumptions, or is
    too large to run."""


class Outcome:
    def __init__(self, exc=None, value=None, code=None, out=None):
        self.exc, self.value, self.code, self.out = exc, value, code, out

    @property
    def ok(self):
        return self.exc is None


# ------------------------------------------------------------------ real


def build_text(nchars, nbytes, k):
    """k-th string with the given character and UTF-8 byte counts"""
    if nchars > 100000:
        raise Skip("text too long")
    extra = nbytes - nchars
    out = []
    for _ in range(nchars):
        e = min(3, extra)
        extra -= e
        d = k % 20
        k //= 20
        out.append(chr([0x61, 0xe0, 0x4e00, 0x1f600][e] + d))
    if extra or k:
        raise Skip("no such text")
    return "".join(out)


ODD = ["e\u0301", " x ", "\u0130", "\ufeffab", "\u00df", "a\u00a0b", "\u212b", "\ufb01x", "A", "\u0645\u0670", "\tq", "q\r", "\u01c5",
       "a\u2028b", "\U0001d538", "\u200bz", "\u1e9e\u0323\u0307", "B\x00", "\x1cy", "\x85", "\u3000k", "\uac01", "'", '"\\',
       "-1", "<a>", "{}", "%s", "#", "\U0010ffff", "aa", "1e5", "N\u0303\u0323", "\u03a3\u03c3\u03c2", "x" * 70, "\u4e2d" * 40]
ODD_BYTES = [b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xe2\x28\xa1", b"\xc0\xaf", b"\xef\xbb\xbf", b"\xf4\x90\x80\x80", b"a\x80",
             b"\xc3\xa9", b"\xe2\x82", b"\xc2\x80", b"\xf0\x9f\x98\x80"]


def odd_text(k, n, exclude=(), maxcp=0x10ffff):
    """k-th unusual text of n characters (of any length if n is None)"""
    pool = ODD if n is None else [t for t in ODD if len(t) == n] + ["".join(ODD[i:i + 3])[:n] for i in range(len(ODD) - 2)]
    pool = [t for t in pool if (n is None or len(t) == n) and all(ord(c) not in exclude and ord(c) <= maxcp for c in t)]
    if not pool:
        raise Skip("no unusual text")
    return pool[k % len(pool)]


class R:
    symbolic = False

    def __init__(self, values, tmp):
        import numpy
        self.v = values
        self.tmp = tmp
        self.np = numpy
        self.notes = []
        self.texts = {}
        self.used = set()
        self.odd = 0

    def mod(self, name):
        return importlib.import_module(name)

    def _get(self, name):
        if name not in self.v:
            raise Skip("input %s not in the model" % name)
        return self.v[name]

    # inputs
    def int(self, name, lo=0, hi=None, soft=None):
        v = self.v.get(name, lo)
        if v is None:
            v = lo
        if "$texts" in self.v and (v < lo or (hi is not None and v > hi)):
            raise Skip("out of range")
        return v

    bv = int

    def small(self, v, limit=200000):
        if v > limit:
            raise Skip("too large to run")
        return v

    def bool(self, name):
        return bool(self.v.get(name, False))

    def choice(self, name, options):
        return options[self.v.get(name, 0)]

    def real(self, name, soft=None):
        return float(self.np.float32(sane(self.v.get(name, "0"))))

    def word(self, name, n, exclude=(), maxcp=0x10ffff):
        if n and "$texts" in self.v:
            self.odd += 1
            return odd_text(self.v["$texts"] + 7 * self.odd, n, exclude, maxcp)
        cps = self.v.get(name)
        if cps is None:
            cps = [0x61 + i for i in range(n)]
        return "".join(map(chr, cps))

    def atom(self, name, minc=0):
        v = self.v.get(name)
        if v is None:
            v = [max(minc, 3), max(minc, 3), "?" + name]
        nc, nb, sid = v
        if "$texts" in self.v and sid not in self.texts:
            self.odd += 1
            t = odd_text(self.v["$texts"] + 7 * self.odd, None)
            if len(t) < minc or t in self.used:
                raise Skip("text too short or not distinct")
            self.used.add(t)
            self.texts[sid] = t
        if sid not in self.texts:
            for k in range(2000):
                t = build_text(nc, nb, k)
                if t not in self.used:
                    break
            else:
                raise Skip("no distinct text")
            self.used.add(t)
            self.texts[sid] = t
        return self.texts[sid]

    def array(self, name, shape, dtype="float32", lo=0, hi=255):
        np = self.np
        a = np.zeros(shape, dtype=dtype)
        for ix in np.ndindex(*a.shape):
            key = "%s[%s]" % (name, ",".join(map(str, ix)))
            if a.dtype.kind == "f":
                a[ix] = jitter(sane(self.v.get(key, "0") or "0"), self.v.get("$jitter", 0), key)
            else:
                a[ix] = self.v.get(key, lo) or 0
        return a

    def oarray(self, name, shape, dtype="<f4"):
        np = self.np
        n = 1
        for s in shape:
            n *= s
        if n > 3000000:
            raise Skip("array too large")
        seed = sum(map(ord, name))
        dt = np.dtype(dtype)
        if dt.kind == "f":
            # distinct, no two equal bit patterns for small arrays
            a = ((np.arange(n, dtype=np.int64) * 3 + seed) % 65521 - 321).astype(np.float64) / 8 + 0.125
            a = a.astype("<f4")
            var = self.v.get("$variant", 0)
            if var in (3, 4):
                a[:] = 4 - var
            elif var:
                # unusual bit patterns: -0, subnormal, NaN, infinities, largest, not representable in few digits
                odd = np.array([0x80000000, 1, 0x7fc00123, 0xff800000, 0x7f7fffff, 0x3f9d3a1b, 0x7f800000, 0], dtype="<u4").view("<f4")
                for i in range(min(n, 64)):
                    if var > 1 or (i + seed) % 2:
                        a[i] = odd[(i * 5 + seed + var) % len(odd)]
        else:
            a = (np.arange(n, dtype=np.int64) * 37 + seed) % 251
        return a.astype(dt).reshape(shape)

    def dict(self, pairs=()):
        return dict(pairs)

    # assumptions and assertions
    def unsupported(self, what):
        raise Skip(what)

    def assume(self, c):
        if not bool(c):
            raise Skip("assumption")

    def check(self, c, label):
        if not bool(c):
            raise Fail(label)

    def truth(self, c):
        return bool(c)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def note(self, t):
        self.notes.append(t)

    def eq(self, a, b, tol=None):
        return real_eq(self.np, a, b, tol)

    def same(self, a, b):
        """equal bit by bit"""
        np = self.np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind or a.dtype.itemsize != b.dtype.itemsize:
            return False
        a, b = (np.ascontiguousarray(x).astype(x.dtype.newbyteorder("<")) for x in (a, b))
        return a.tobytes() == b.tobytes()

    def lt(self, a, b, parts=(), rel=2e-6):
        """at most, up to the rounding of computations with the given numbers"""
        return float(a) <= float(b) + rel * max([0.0] + [abs(float(x)) for x in parts])

    def close(self, a, b, tol=1e-3):
        return real_eq(self.np, a, b, tol)

    def tight(self, a, b, parts, rel=2e-5):
        """equal up to the rounding of a float32 computation with the given numbers"""
        if a != a or b != b:
            return bool(a != a and b != b)
        return abs(float(a) - float(b)) <= rel * max([abs(float(b))] + [abs(float(x)) for x in parts])

    def near(self, a, b, scale=None):
        """equal up to a few float32 roundings"""
        return abs(float(a) - float(b)) <= 1e-6 * abs(float(b if scale is None else scale))

    def float32(self, a, b):
        """the same 32-bit float"""
        a, b = self.np.float32(a), self.np.float32(b)
        return bool(a == b or (a != a and b != b))

    # files
    def c_locale(self):
        import locale
        locale.setlocale(locale.LC_CTYPE, "C")

    def path(self, name):
        return os.path.join(self.tmp, name)

    def fd(self, path, write=False):
        return os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC if write else os.O_RDONLY, 0o600)

    def read_bytes(self, path):
        with open(path, "rb") as f:
            return f.read()

    def write_bytes(self, path, *parts):
        with open(path, "wb") as f:
            for p in parts:
                f.write(p)

    def file_size(self, path):
        return os.path.getsize(path)

    def exists(self, path):
        return os.path.exists(path)

    def truncated(self, path, new, cut):
        with open(path, "rb") as f:
            b = f.read()
        if cut >= len(b):
            raise Skip("cut beyond the end")
        with open(new, "wb") as f:
            f.write(b[:cut])
        return new

    def pack(self, fmt, *a):
        import struct
        return struct.pack(fmt, *a)

    def unpack(self, fmt, b):
        import struct
        return struct.unpack(fmt, b)

    def open(self, path, mode="r", **k):
        return open(path, mode, **k)

    def toml_bytes(self, d):
        import toml
        return toml.dumps(d).encode("utf-8")

    def raw(self, name, n, exclude=()):
        if n and "$texts" in self.v:
            self.odd += 1
            pool = [b for b in ((t * n)[:n] for t in ODD_BYTES) if not any(c in exclude for c in b)]
            return pool[(self.v["$texts"] + 7 * self.odd) % len(pool)]
        return bytes(self.v.get("%s.%d" % (name, i), 0x61) for i in range(n))

    def decode(self, b, errors="strict"):
        return b.decode("utf-8", errors)

    def utf8(self, s):
        return s.encode("utf-8")

    def nbytes(self, s):
        return len(s.encode("utf-8"))

    def zeros(self, n):
        return b"\0" * n

    def le_bytes(self, a):
        a = self.np.asarray(a)
        return a.astype(a.dtype.newbyteorder("<")).tobytes()

    def cat(self, *parts):
        return b"".join(parts)

    def length(self, x):
        return len(x)

    def ite(self, c, a, b):
        return a if c else b

    def float(self, text):
        return float(text)

    def text(self, t):
        return t

    def lines(self, text):
        return text.splitlines()

    def sqrt(self, x):
        return float(x)**0.5

    def pick(self, options, i):
        return options[int(i)]

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(value=fn(*a, **k))
        except (Fail, Skip):
            raise
        except Exception as ex:
            return Outcome(exc=ex)

    def script(self, modname, argv, stdin=None):
        m = self.mod(modname)
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        sys.argv = [modname.rsplit(".", 1)[-1]] + list(argv)
        so, se = io.TextIOWrapper(io.BytesIO(), "utf-8", newline=""), io.StringIO()
        sys.stdout, sys.stderr = so, se
        saved = None
        if stdin is not None:
            sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode("utf-8")), "utf-8")
            # the descriptor as well: the tools open(0)
            saved = os.dup(0)
            f = tempfile.TemporaryFile(dir=self.tmp)
            f.write(stdin.encode("utf-8"))
            f.flush()
            f.seek(0)
            os.dup2(f.fileno(), 0)
            f.close()
        code, exc = 0, None
        try:
            m.main()
        except SystemExit as ex:
            code = ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 1)
        except (Fail, Skip):
            raise
        except Exception as ex:
            exc = ex
        finally:
            if saved is not None:
                os.dup2(saved, 0)
                os.close(saved)
            so.flush()
            out = so.buffer.getvalue().decode("utf-8")
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        return Outcome(exc=exc, code=code, out=out)

    def mapped(self, a):
        """does the array lie in a memory-mapped file"""
        import mmap
        while a is not None:
            if isinstance(a, (mmap.mmap, self.np.memmap)):
                return True
            a = getattr(a, "base", None)
        return False

    def fnv64(self, data_bytes, h):
        for b in data_bytes:
            h = ((h ^ b) * 0x100000001b3) & (2**64 - 1)
        return h

    def ft32(self, data):
        h = 2166136261
        for b in data:
            h ^= b if b < 128 else 0xffffff00 | b
            h = (h * 16777619) & 0xffffffff
        return h

    def byte_list(self, b):
        return list(b)

    def cps(self, s):
        return [ord(c) for c in s]


def sane(text):
    """the solver reasons over the reals; numbers for which rounding could
    matter are not replayed"""
    v = float(Fraction(text))
    if v and not 1e-4 < abs(v) < 1e4:
        raise Skip("number outside of the replayed range")
    return v


def real_eq(np, a, b, tol=None):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if tol is None:
            if a.dtype.kind == "f" and b.dtype.kind == "f" and a.dtype.itemsize == b.dtype.itemsize:
                x = np.ascontiguousarray(a).astype(a.dtype.newbyteorder("<"))
                y = np.ascontiguousarray(b).astype(b.dtype.newbyteorder("<"))
                return x.tobytes() == y.tobytes() or bool(np.array_equal(x, y, equal_nan=True))
            return bool(np.array_equal(a, b))
        return bool(np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(real_eq(np, x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(real_eq(np, a[k], b[k], tol) for k in a)
    if tol is not None and isinstance(a, (int, float, np.floating, np.integer)) and isinstance(
            b, (int, float, np.floating, np.integer)):
        if a != a or b != b:
            return bool(a != a and b != b)
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))
    return bool(a == b)
