"""Symbolic numpy: arrays over symbolic reals/ints (explicit mode) or over a
byte rope with a symbolic shape (opaque mode)."""
import abc
import math
import types

import numpy as rnp
import z3

from . import core, rope, files
from .core import (SymInt, SymReal, SymBool, Unsupported, BoundExceeded, And, Or, Not, mkint, mkbool, mkreal, ctx,
                   int_expr, ite_real, real_expr)
from .rope import SymBytes, SymStr, Lit, Num, Fill, Blob, TokS, split_segs, same_term

EXPLICIT_MAX = 256


def _i(x):
    """index-like -> native int (forks)"""
    x = core._conv(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymND) and x.ndim == 0:
        return _i(x._a.item())
    raise TypeError("only integers can be used as an index, not %s" % type(x).__name__)


def _num(x):
    x = core._conv(x)
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, float) or isinstance(x, SymReal):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise TypeError("an integer is required")


def _prod(xs):
    p = 1
    for x in xs:
        p = p * x
    return p


def to_elem(v, dt):
    k = dt.kind
    if isinstance(v, SymND):
        if v.size == 1:
            return to_elem(v._a.reshape(-1)[0], dt)
        raise ValueError("setting an array element with a sequence.")
    if isinstance(v, rnp.generic):
        v = v.item()
    if k == "f":
        if isinstance(v, SymReal):
            return v
        if isinstance(v, (SymInt, SymBool, bool, int, core.Fraction)):
            return SymReal(z3.simplify(real_expr(v)))
        if isinstance(v, float):
            return SymReal(real_expr(v))
        if isinstance(v, (str, SymStr)):
            return parse_float(v)
        if v is None:
            return SymReal(None)
        if isinstance(v, (bytes, SymBytes)):
            return parse_float(rope.lift_bytes(v).decode("ascii"))
        raise TypeError("float() argument must be a string or a real number, not '%s'" % type(v).__name__)
    if k in "iu":
        if isinstance(v, SymBool):
            return v._int()
        if isinstance(v, (int, SymInt)):
            v = core._conv(v)
            bits = dt.itemsize * 8
            if k == "u" and isinstance(v, int):
                return v % (1 << bits)
            return v
        if isinstance(v, float):
            return int(v)
        raise Unsupported("integer element from %s" % type(v).__name__)
    if k == "b":
        if isinstance(v, (SymBool, bool)):
            return v
        return v != 0
    return v


def _wrapper(src, d):
    """conversion between integer types"""
    si, di = rnp.iinfo(src), rnp.iinfo(d)
    if di.min <= si.min and si.max <= di.max:
        return lambda v: v
    m = 1 << (8 * d.itemsize)
    h = m // 2 if d.kind == "i" else 0

    def f(v):
        if isinstance(v, SymInt) and ctx().must(z3.And(int_expr(v) >= int(di.min), int_expr(v) <= int(di.max))):
            return v
        return (v + h) % m - h

    return f


def parse_float(s):
    if isinstance(s, str):
        return SymReal(real_expr(float(s)))
    t = s.strip()
    if len(t.items) == 1 and isinstance(t.items[0], rope.FloatText):
        tok = t.items[0]
        if getattr(tok, "lossy", False):
            c = ctx()
            key = ("lossy", tok.v.e.get_id() if tok.v.e is not None else 0, str(tok.digits))
            if key not in c.memo:
                c.imprecise.append("lossy float formatting")
                c.memo[key] = SymReal(z3.Real(c.fresh("rounded")))
            return c.memo[key]
        return tok.v
    if len(t.items) == 1 and isinstance(t.items[0], rope.IntText):
        return SymReal(real_expr(t.items[0].v))
    if len(t.items) == 1 and isinstance(t.items[0], rope.PartialTok):
        c = ctx()
        c.imprecise.append("part of the text of a number")
        if bool(SymBool(z3.Bool(c.fresh("partial_is_float")))):
            return SymReal(z3.Real(c.fresh("partialfloat")))
        raise ValueError("could not convert string to float")
    cst = t.concrete()
    if cst is not None:
        return SymReal(real_expr(float(cst)))
    if any(isinstance(i, rope.Tok) for i in t.items):
        # number text with something attached: not a number unless e.g. sign
        rest = [i for i in t.items if not isinstance(i, rope.Tok)]
        if rest and all(isinstance(i, int) and chr(i) not in "0123456789+-.eE_infatyINFATY" for i in rest):
            raise ValueError("could not convert string to float")
        raise Unsupported("float of symbolic text")
    if not t.items:
        raise ValueError("could not convert string to float: ''")
    if not any(isinstance(i, int) and chr(i) in "0123456789" for i in t.items) and \
            not bool(Or(*[_digitish(i) for i in t.items])):
        raise ValueError("could not convert string to float")
    raise Unsupported("float of symbolic text")


def _digitish(i):
    # characters that can occur in the text of a float (any Unicode digit,
    # or a letter of inf/nan): over-approximated by everything non-symbolic
    if isinstance(i, int):
        return chr(i).isdigit() or chr(i) in "infaINFAtyTY"
    return True


DTYPES = rnp.dtype


def _dt(x):
    if isinstance(x, SymStr):
        x = x.concrete()
    if x is float:
        return rnp.dtype("float64")
    return rnp.dtype(x)


class _Meta(abc.ABCMeta):
    pass


class _Flags:
    def __init__(self, arr):
        self._arr = arr

    @property
    def writeable(self):
        return not self._arr._ro

    @writeable.setter
    def writeable(self, v):
        self._arr._ro = not v

    c_contiguous = True
    f_contiguous = False
    owndata = True
    contiguous = True

    def __getitem__(self, k):
        return getattr(self, k.lower())


def new_x(a, dt, cls=None, ro=False):
    cls = cls or SymND
    r = SymND._alloc(cls)
    r._mode = "x"
    r._a = a
    r._dt = dt
    r._ro = ro
    r._base = None
    return r


def new_o(shape, ropeb, dt, cls=None, ro=False):
    cls = cls or SymND
    r = SymND._alloc(cls)
    r._mode = "o"
    r._shape = tuple(shape)
    r._r = ropeb
    r._dt = dt
    r._ro = ro
    r._base = None
    return r


def from_rope(ropeb, dt, shape, cls=None, ro=False, explicit=None):
    """Array over bytes; explicit when the element count is concrete and the
    content is not opaque."""
    n = _prod(shape)
    if explicit is None:
        explicit = isinstance(n, int) and n <= EXPLICIT_MAX and all(isinstance(s, int) for s in shape) and not any(
            isinstance(s, Blob) or (isinstance(s, Fill) and not isinstance(s.n, int)) for s in ropeb.segs)
    if not explicit:
        return new_o(shape, ropeb, dt, cls, ro)
    a = rnp.empty(n, dtype=object)
    segs = list(ropeb.segs)
    sw = dt.byteorder == ">"
    for k in range(n):
        h, segs = split_segs(segs, dt.itemsize)
        if dt.kind == "f":
            a[k] = files.read_float(h, dt.itemsize, sw)
        elif dt.kind in "iu":
            a[k] = files.read_int(h, dt.itemsize, sw, dt.kind == "i")
        elif dt.kind == "b":
            a[k] = files.read_int(h, 1, False, False) != 0
        else:
            raise Unsupported("dtype %s" % dt)
    return new_x(a.reshape(shape), dt, cls, ro)


def _cls_of(*xs):
    best = None
    for x in xs:
        if isinstance(x, SymND) and type(x) is not SymND and type(x) is not MemMap:
            best = best or type(x)
    return best or SymND


class SymND(metaclass=_Meta):
    _is_symnd = True
    _is_sym = True
    __array_ufunc__ = None
    __hash__ = None

    @staticmethod
    def _alloc(cls):
        try:
            return object.__new__(cls)
        except TypeError:
            ab = cls.__abstractmethods__
            cls.__abstractmethods__ = frozenset()
            try:
                return object.__new__(cls)
            finally:
                cls.__abstractmethods__ = ab

    def __new__(cls, shape=None, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if shape is None:
            raise TypeError("function missing required argument 'shape' (pos 1)")
        if buffer is not None:
            raise Unsupported("ndarray(buffer=)")
        return _empty(shape, dtype, cls)

    # subclasses with their own __new__ never reach object.__init__ args
    def __init__(self, *a, **k):
        pass

    # -- basics
    @property
    def shape(self):
        return self._a.shape if self._mode == "x" else self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        if self._mode == "x":
            self._a = r._a
        else:
            self._shape = r._shape

    @property
    def ndim(self):
        return len(SymND.shape.fget(self))

    @property
    def size(self):
        return _prod(SymND.shape.fget(self))

    @property
    def dtype(self):
        return self._dt

    @dtype.setter
    def dtype(self, d):
        v = self.view(_dt(d))
        if self._mode == "x":
            self._a = v._a
        else:
            self._r = v._r
        self._dt = v._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self.size * self._dt.itemsize

    @property
    def base(self):
        return self._base

    @property
    def flags(self):
        return _Flags(self)

    def setflags(self, write=None, align=None, uic=None):
        if write is not None:
            self._ro = not write

    @property
    def T(self):
        return new_x(self._x().T, self._dt, type(self), self._ro)

    def transpose(self, *axes):
        return new_x(self._x().transpose(*axes), self._dt, type(self), self._ro)

    @property
    def flat(self):
        return iter(self._x().reshape(-1))

    @property
    def data(self):
        return self.tobytes()

    def sym_len(self):
        s = SymND.shape.fget(self)
        if not s:
            raise TypeError("len() of unsized object")
        return s[0]

    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(self._x().reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def _x(self):
        """object array, concretising opaque arrays with small shape"""
        if self._mode == "x":
            return self._a
        shape = tuple(_i(s) for s in self._shape)
        n = _prod(shape)
        if n > EXPLICIT_MAX:
            raise Unsupported("element access to a large opaque array")
        r = from_rope(self._r, self._dt, shape, explicit=True)
        return r._a

    def __repr__(self):
        return "array(<%s %s>)" % ("x".join(str(s) for s in SymND.shape.fget(self)), self._dt)

    def _sym_str(self):
        return "[...]"

    def __format__(self, spec):
        return "[...]"

    # -- iteration / indexing
    def __iter__(self):
        if self._mode == "x":
            if self._a.ndim == 0:
                raise TypeError("iteration over a 0-d array")
            if self._a.ndim == 1:
                for k in range(len(self._a)):
                    yield self._a[k]
            else:
                for k in range(self._a.shape[0]):
                    yield self[k]
            return
        k = 0
        while bool(k < self._shape[0]):
            yield SymND.__getitem__(self, k)
            k += 1
            if k > 6:
                raise BoundExceeded("rows of an opaque array")

    def __contains__(self, v):
        return any(bool(x == v) for x in self._x().reshape(-1))

    def __getitem__(self, key):
        if self._mode == "o":
            return self._get_o(key)
        key2, gather = norm_key(key, self._a)
        if gather is not None:
            return new_x(gather(self._a), self._dt, type(self))
        try:
            r = self._a[key2]
        except IndexError as ex:
            raise IndexError(*ex.args)
        if isinstance(r, rnp.ndarray) and not _is_scalar_key(key2, self._a):
            fancy = _is_fancy(key2)
            res = new_x(r, self._dt, type(self), self._ro and not fancy)
            if not fancy:
                res._base = self
            _finalize(res, self)
            return res
        if isinstance(r, rnp.ndarray):
            return r.item()
        return r

    def _get_o(self, key):
        shape = self._shape
        row = _prod(shape[1:]) * self._dt.itemsize
        if key is Ellipsis:
            return self
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, slice):
            if key.step not in (None, 1):
                raise Unsupported("opaque slice step")
            n = shape[0]
            a = rope._clamp(0 if key.start is None else core._conv(key.start), n)
            b = n if key.stop is None else rope._clamp(core._conv(key.stop), n)
            m = b - a
            if not bool(m >= 0):
                m = 0
            return new_o((m, ) + shape[1:], self._r[a * row:(a + m) * row], self._dt, type(self), self._ro)
        if isinstance(key, (int, SymInt)) or isinstance(key, rnp.integer):
            key = core._conv(key)
            n = shape[0]
            if bool(key < 0):
                key = key + n
            if bool(Or(key < 0, key >= n)):
                raise IndexError("index out of bounds")
            r = self._r[key * row:(key + 1) * row]
            if len(shape) == 1:
                return from_rope(r, self._dt, (1, ), explicit=True)._a[0]
            return new_o(shape[1:], r, self._dt, type(self), self._ro)
        if all(isinstance(s, int) for s in shape):
            return new_x(self._x(), self._dt, type(self), self._ro)[key]
        raise Unsupported("opaque indexing %r" % (type(key), ))

    def __setitem__(self, key, value):
        if self._ro:
            raise ValueError("assignment destination is read-only")
        if self._mode == "o":
            if key is Ellipsis or (isinstance(key, slice) and key == slice(None)):
                v = asarray(value)
                if v._mode == "o" and bool(And(*[p == q for p, q in zip(v._shape, self._shape)])):
                    self._r = v.astype(self._dt)._r
                    return
            self._a = self._x().copy()
            self._mode = "x"
        key2, gather = norm_key(key, self._a, write=True)
        try:
            target = self._a[key2]
        except IndexError as ex:
            raise IndexError(*ex.args)
        if isinstance(target, rnp.ndarray):
            src = value_array(value, self._dt)
            try:
                rnp.broadcast_shapes(src.shape, target.shape)
                src = rnp.broadcast_to(src, target.shape)
            except ValueError:
                if src.ndim > target.ndim and all(d == 1 for d in src.shape[:src.ndim - target.ndim]):
                    src = rnp.broadcast_to(src.reshape(src.shape[src.ndim - target.ndim:]), target.shape)
                else:
                    raise ValueError("could not broadcast input array from shape %s into shape %s" %
                                     (src.shape, target.shape))
            self._a[key2] = src
        else:
            if hasattr(value, "__len__") and not isinstance(value, (SymStr, str)) and not (
                    isinstance(value, SymND) and value.size == 1):
                v = value_array(value, self._dt)
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                value = v.reshape(-1)[0]
            self._a[key2] = to_elem(value, self._dt)

    # -- conversion
    def view(self, *args, **kw):
        t = args[0] if args else (kw.get("dtype") or kw.get("type"))
        if t is None:
            t = type(self)
        if isinstance(t, type) and issubclass(t, SymND):
            if self._mode == "x":
                r = new_x(self._a, self._dt, t, self._ro)
            else:
                r = new_o(self._shape, self._r, self._dt, t, self._ro)
            r._base = self
            _finalize(r, self)
            return r
        d = _dt(t)
        if d.itemsize != self._dt.itemsize or d.kind != self._dt.kind:
            # reinterpretation: through bytes
            s = SymND.shape.fget(self)
            if not s:
                raise Unsupported("view of 0-d array")
            last = s[-1] * self._dt.itemsize
            if not bool(last % d.itemsize == 0):
                raise ValueError("last axis not divisible")
            return from_rope(self.tobytes(), d, s[:-1] + (last // d.itemsize, ))
        if d.byteorder == self._dt.byteorder or d.itemsize == 1:
            r = new_x(self._a, d, type(self), self._ro) if self._mode == "x" else new_o(
                self._shape, self._r, d, type(self), self._ro)
            r._base = self
            return r
        if self._mode == "x":
            return new_x(_map(self._a, lambda v: files.swap_val(v, d.itemsize)), d, type(self), self._ro)
        return new_o(self._shape, self._r, d, type(self), self._ro)

    def newbyteorder(self, order="S"):
        return self.view(self._dt.newbyteorder(order))

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        d = _dt(dtype)
        if self._mode == "x":
            if d.kind in "iu" and self._dt.kind in "iu":
                return new_x(_map(self._a, _wrapper(self._dt, d)), d, type(self))
            if d.kind == self._dt.kind:
                return new_x(self._a.copy(), d, type(self))
            return new_x(_map(self._a, lambda v: to_elem(v, d)), d, type(self))
        if d.kind == self._dt.kind and d.itemsize == self._dt.itemsize:
            if d.byteorder == self._dt.byteorder or d.itemsize == 1:
                return new_o(self._shape, self._r, d, type(self))
            return new_o(self._shape, rope_swap(self._r, d.itemsize), d, type(self))
        raise Unsupported("astype of opaque array")

    def byteswap(self, inplace=False):
        size = self._dt.itemsize
        if self._mode == "x":
            a = self._a
            if size > 1:
                if self._dt.kind != "f":
                    if self._dt.kind in "iu":
                        a = _map(a, lambda v: files.read_int(rope.int_to_bytes(
                            v, size, "little", self._dt.kind == "i").segs, size, True, self._dt.kind == "i"))
                    else:
                        raise Unsupported("byteswap")
                else:
                    a = _map(a, lambda v: files.swap_val(v, size))
            else:
                a = a.copy()
            if inplace:
                if self._ro:
                    raise ValueError("assignment destination is read-only")
                self._a[...] = a
                return self
            return new_x(a, self._dt, type(self))
        r = rope_swap(self._r, size)
        if inplace:
            if self._ro:
                raise ValueError("assignment destination is read-only")
            self._r = r
            return self
        return new_o(self._shape, r, self._dt, type(self))

    def tobytes(self, order="C"):
        if self._mode == "o":
            return self._r
        sw = self._dt.byteorder == ">"
        size = self._dt.itemsize
        segs = []
        flat = self._a.ravel(order=order or "C")
        for v in flat:
            if self._dt.kind == "f":
                segs.append(files.fnum(v, size, sw))
            elif isinstance(v, int):
                segs.append(Lit((int(v) % (1 << 8 * size)).to_bytes(size, "big" if sw else "little")))
            elif isinstance(v, SymInt):
                segs.append(Num("i", v, size, sw))
            elif isinstance(v, SymBool):
                segs.append(Num("i", v._int(), size, sw))
            else:
                raise Unsupported("tobytes")
        return SymBytes(segs)

    tostring = tobytes

    def tofile(self, fid, sep="", format="%s"):
        if sep:
            raise Unsupported("tofile(sep)")
        if isinstance(fid, files.SymText):
            fid = fid.raw
        if isinstance(fid, files.SymFile):
            if fid.name == "<BytesIO>":
                raise OSError("obtaining file position failed")
            fid.write(self.tobytes())
            return
        with files.sym_open(fid, "wb") as f:
            f.write(self.tobytes())

    def tolist(self):
        x = self._x()
        return x.tolist()

    def item(self, *args):
        x = self._x()
        if not args:
            if x.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return x.reshape(-1)[0]
        return x.item(*args)

    def copy(self, order="C"):
        if self._mode == "x":
            return new_x(self._a.copy(), self._dt, type(self))
        return new_o(self._shape, self._r, self._dt, type(self))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def fill(self, v):
        self[...] = v

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and (isinstance(shape[0], (tuple, list)) or (isinstance(shape[0], SymND))):
            shape = tuple(shape[0])
        shape = tuple(_num(s) for s in shape)
        neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
        total = self.size
        if len(neg) > 1:
            raise ValueError("can only specify one unknown dimension")
        if neg:
            rest = _prod(s for s in shape if not (isinstance(s, int) and s == -1))
            if isinstance(rest, int) and isinstance(total, int):
                if rest == 0 or total % rest:
                    raise ValueError("cannot reshape array of size %d into shape %s" % (total, shape))
                m = total // rest
            else:
                if bool(rest == 0) or not bool(total % rest == 0):
                    raise ValueError("cannot reshape array")
                m = total // rest
            shape = shape[:neg[0]] + (m, ) + shape[neg[0] + 1:]
        else:
            n = _prod(shape)
            if not (same_term(n, total) or bool(n == total)):
                raise ValueError("cannot reshape array into that shape")
        if self._mode == "x":
            if all(isinstance(s, int) for s in shape):
                r = new_x(self._a.reshape(shape, order=order), self._dt, type(self), self._ro)
                r._base = self
                return r
            return new_x(self._a.reshape(tuple(_i(s) for s in shape)), self._dt, type(self), self._ro)
        if order not in ("C", "A", "K", None):
            raise Unsupported("opaque reshape order")
        return new_o(shape, self._r, self._dt, type(self), self._ro)

    def ravel(self, order="C"):
        return self.reshape(-1) if self._mode == "x" else self.reshape((self.size, ))

    def flatten(self, order="C"):
        return self.ravel().copy()

    def squeeze(self, axis=None):
        return new_x(self._x().squeeze(axis), self._dt, type(self), self._ro)

    def swapaxes(self, a, b):
        return new_x(self._x().swapaxes(a, b), self._dt, type(self), self._ro)

    def resize(self, *shape):
        raise Unsupported("ndarray.resize")

    def repeat(self, n, axis=None):
        return new_x(self._x().repeat(n, axis), self._dt, type(self))

    def take(self, idx, axis=None, out=None):
        if axis not in (None, 0) or (axis is None and self.ndim > 1):
            raise Unsupported("take axis")
        r = self[idx]
        return _out(r, out)

    def nonzero(self):
        x = self._x()
        idx = [k for k in rnp.ndindex(*x.shape) if bool(x[k] != 0)]
        return tuple(array([k[d] for k in idx], dtype="int64") for d in range(x.ndim))

    # -- reductions
    def _red(self, f, axis, keepdims, out, dt=None, dtype=None):
        x = self._x()
        if axis is None:
            r = f(list(x.reshape(-1)))
            if keepdims:
                a = rnp.empty((1, ) * x.ndim, dtype=object)
                a.reshape(-1)[0] = r
                return _out(new_x(a, dt or self._dt, type(self)), out)
            if out is not None:
                out[...] = r
                return out
            return r
        if isinstance(axis, tuple):
            raise Unsupported("tuple axis")
        axis = _i(axis)
        if not -x.ndim <= axis < x.ndim:
            raise ValueError("axis %d is out of bounds for array of dimension %d" % (axis, x.ndim))
        axis %= x.ndim
        y = rnp.moveaxis(x, axis, -1)
        res = rnp.empty(y.shape[:-1], dtype=object)
        for k in rnp.ndindex(*y.shape[:-1]):
            res[k] = f([y[k + (m, )] for m in range(y.shape[-1])])
        if keepdims:
            res = rnp.expand_dims(res, axis)
        if res.ndim == 0:
            if out is not None:
                out[...] = res.item()
                return out
            return res.item()
        return _out(new_x(res, _dt(dtype) if dtype else (dt or self._dt), type(self)), out)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=None):
        z = 0 if self._dt.kind in "iub" else SymReal(z3.RealVal(0))
        return self._red(lambda v: _sum(v, z), axis, keepdims, out,
                         dt=self._dt if self._dt.kind == "f" else rnp.dtype("int64"), dtype=dtype)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._red(lambda v: _sum(v, SymReal(z3.RealVal(0))) / len(v) if v else SymReal(None), axis, keepdims, out,
                         dt=self._dt if self._dt.kind == "f" else rnp.dtype("float64"), dtype=dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._red(_prod, axis, keepdims, out)

    def max(self, axis=None, out=None, keepdims=False, initial=None):
        return self._red(lambda v: _fold(v, lambda a, b: a if a >= b else b, initial), axis, keepdims, out)

    def min(self, axis=None, out=None, keepdims=False, initial=None):
        return self._red(lambda v: _fold(v, lambda a, b: a if a <= b else b, initial), axis, keepdims, out)

    def any(self, axis=None, out=None, keepdims=False):
        return self._red(lambda v: Or(*[x != 0 if not isinstance(x, (bool, SymBool)) else x for x in v]), axis, keepdims,
                         out, dt=rnp.dtype(bool))

    def all(self, axis=None, out=None, keepdims=False):
        return self._red(lambda v: And(*[x != 0 if not isinstance(x, (bool, SymBool)) else x for x in v]), axis,
                         keepdims, out, dt=rnp.dtype(bool))

    def argmax(self, axis=None, out=None):
        return self._red(lambda v: _argbest(v, lambda a, b: a > b), axis, False, out, dt=rnp.dtype("int64"))

    def argmin(self, axis=None, out=None):
        return self._red(lambda v: _argbest(v, lambda a, b: a < b), axis, False, out, dt=rnp.dtype("int64"))

    def argsort(self, axis=-1, kind=None, order=None):
        return self._lastaxis(lambda v: sort_idx(v))

    def sort(self, axis=-1, kind=None, order=None):
        x = self._x()
        if x.ndim != 1:
            raise Unsupported("sort of n-d array")
        idx = sort_idx(list(x))
        vals = [x[i] for i in idx]
        for k, v in enumerate(vals):
            self._a[k] = v

    def argpartition(self, kth, axis=-1, kind="introselect", order=None):
        return self._lastaxis(lambda v: partition_idx(v, kth))

    def partition(self, kth, axis=-1, kind="introselect", order=None):
        x = self._x()
        idx = partition_idx(list(x), kth)
        vals = [x[i] for i in idx]
        for k, v in enumerate(vals):
            self._a[k] = v

    def _lastaxis(self, f):
        x = self._x()
        if x.ndim == 1:
            return array(f(list(x)), dtype="int64")
        if x.ndim == 2:
            return array([f(list(r)) for r in x], dtype="int64")
        raise Unsupported("axis")

    def dot(self, other, out=None):
        return dot(self, other, out=out)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def clip(self, lo=None, hi=None, out=None, min=None, max=None):
        lo, hi = (min if lo is None else lo), (max if hi is None else hi)
        r = self
        if lo is not None:
            r = binop(r, lo, lambda a, b: _ite(a >= b, a, to_elem(b, self._dt)))
        if hi is not None:
            r = binop(r, hi, lambda a, b: _ite(a <= b, a, to_elem(b, self._dt)))
        return _out(r, out)

    def round(self, decimals=0, out=None):
        if self._dt.kind != "f":
            raise Unsupported("round")
        r = new_x(_map(self._x(), lambda v: v.__round__(decimals) if isinstance(v, SymReal) else round(float(v), decimals)), self._dt, type(self))
        return _out(r, out)

    def cumsum(self, axis=None, dtype=None, out=None):
        x = self._x()
        if x.ndim != 1:
            raise Unsupported("cumsum")
        acc, res = 0, []
        for v in x:
            acc = acc + v
            res.append(acc)
        return array(res, dtype=self._dt)

    def _as_pyint(self):
        if self._mode == "x" and self._a.ndim == 0 and self._dt.kind in "iu":
            return self._a.item()
        return self

    def __index__(self):
        if self._mode == "x" and self._a.size == 1 and self._dt.kind in "iu":
            return _i(self._a.reshape(-1)[0])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    # -- operators
    def _bin(self, o, f, rev=False, cmp=False):
        if o is None or isinstance(o, (str, SymStr)):
            return NotImplemented
        return binop(o, self, f, cmp) if rev else binop(self, o, f, cmp)

    def __neg__(self):
        return new_x(_map(self._x(), lambda v: -v), self._dt, type(self))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return new_x(_map(self._x(), abs), self._dt, type(self))

    def __invert__(self):
        if self._dt.kind == "b":
            return new_x(_map(self._x(), Not), self._dt, type(self))
        raise Unsupported("~")

    def _inplace(self, o, f):
        if self._ro:
            raise ValueError("output array is read-only")
        if self._mode == "o":
            self._a = self._x().copy()
            self._mode = "x"
        if self._dt.kind in "iu" and _kind(o) == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to %s with casting rule 'same_kind'" % self._dt)
        b = value_array(o, None)
        r = elementwise(self._a, b, f)
        if r.shape != self._a.shape:
            raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" %
                             (self._a.shape, r.shape))
        self._a[...] = r
        return self


def _kind(o):
    if isinstance(o, SymND):
        return o._dt.kind
    if isinstance(o, (SymReal, float)):
        return "f"
    return "i"


def _add_ops():
    import operator as op
    arith = {"add": op.add, "sub": op.sub, "mul": op.mul, "truediv": op.truediv, "floordiv": op.floordiv,
             "mod": op.mod, "pow": op.pow, "and": op.and_, "or": op.or_, "xor": op.xor, "lshift": op.lshift,
             "rshift": op.rshift}
    for n, f in arith.items():
        setattr(SymND, "__%s__" % n, lambda self, o, f=f: self._bin(o, f))
        setattr(SymND, "__r%s__" % n, lambda self, o, f=f: self._bin(o, f, True))
        setattr(SymND, "__i%s__" % n, lambda self, o, f=f: self._inplace(o, f))
    for n, f in {"lt": op.lt, "le": op.le, "gt": op.gt, "ge": op.ge, "eq": op.eq, "ne": op.ne}.items():
        setattr(SymND, "__%s__" % n, lambda self, o, f=f: self._bin(o, f, cmp=True))


_add_ops()


class MemMap(SymND):
    def __new__(cls, filename, dtype="uint8", mode="r+", offset=0, shape=None, order="C"):
        if isinstance(filename, files.SymFile):
            node = filename.node
            name = filename.name
            filename.seek(0, 2)
        elif isinstance(filename, int):
            raise TypeError("expected str, bytes or os.PathLike object, not int")
        else:
            name = files._path(filename)
            if name not in files.fs().nodes:
                raise FileNotFoundError(2, "No such file or directory", name)
            node = files.fs().nodes[name]
        if isinstance(mode, SymStr):
            mode = mode.concrete()
        mode = {"readonly": "r", "copyonwrite": "c", "readwrite": "r+", "write": "w+"}.get(mode, mode)
        if mode not in ("r", "c", "r+"):
            raise Unsupported("memmap mode %s" % mode)
        d = _dt(dtype)
        offset = _num(offset)
        size = node.size()
        if shape is None:
            avail = size - offset
            if not bool(avail % d.itemsize == 0):
                raise ValueError("Size of the available data is not a multiple of the data-type size.")
            shape = (avail // d.itemsize, )
        elif not isinstance(shape, (tuple, list)):
            shape = (shape, )
        shape = tuple(_num(s) for s in shape)
        n = _prod(shape) * d.itemsize
        if not isinstance(offset, int) or offset:
            if bool(offset < 0):
                raise ValueError("negative offset")
        if not (bool(offset + n <= size)):
            raise ValueError("mmap length is greater than file size")
        if isinstance(size, int) and size == 0:
            raise ValueError("cannot mmap an empty file")
        _, r = split_segs(node.segs, offset)
        r, _ = split_segs(r, n)
        if order != "C":
            raise Unsupported("memmap order")
        res = from_rope(SymBytes(r), d, shape, cls, ro=(mode == "r"))
        res.filename = name
        res.offset = offset
        res.mode = mode
        return res

    def flush(self):
        pass


def _finalize(new, old):
    f = getattr(type(new), "__array_finalize__", None)
    if f is not None:
        new.__array_finalize__(old)


def _is_fancy(key):
    if isinstance(key, tuple):
        return any(isinstance(k, (list, rnp.ndarray)) for k in key)
    return isinstance(key, (list, rnp.ndarray))


def _is_scalar_key(key, a):
    if isinstance(key, int) and not isinstance(key, bool):
        return a.ndim == 1
    if isinstance(key, tuple):
        return len(key) == a.ndim and all(isinstance(k, int) and not isinstance(k, bool) for k in key)
    return False


def _map(a, f):
    r = rnp.empty(a.shape, dtype=object)
    ra, aa = r.reshape(-1), a.reshape(-1)
    for k in range(aa.size):
        ra[k] = f(aa[k])
    return r


def rope_swap(r, size):
    if size == 1:
        return r
    segs = []
    for s in r.segs:
        if isinstance(s, Blob):
            if s.sw == 0:
                segs.append(Blob(s.src, s.off, s.n, size))
            elif s.sw == size:
                segs.append(Blob(s.src, s.off, s.n, 0))
            else:
                raise Unsupported("byteswap with other item size")
        elif isinstance(s, Num) and s.size == size:
            segs.append(Num(s.kind, s.v, s.size, not s.swapped))
        elif isinstance(s, Fill):
            segs.append(s)
        elif isinstance(s, Lit) and len(s.b) % size == 0:
            segs.append(Lit(b"".join(s.b[i:i + size][::-1] for i in range(0, len(s.b), size))))
        else:
            raise Unsupported("byteswap of %r" % s)
    return SymBytes(segs)


def norm_key(key, a, write=False):
    """-> (numpy key with native ints, gather function or None)"""
    if isinstance(key, tuple):
        if not write:
            g = tuple_gather(key, a)
            if g is not None:
                return None, g
        ks = []
        for k in key:
            k2, g = norm_key(k, a, True)
            ks.append(k2)
        return tuple(ks), None
    if key is None or key is Ellipsis:
        return key, None
    if isinstance(key, bool):
        return key, None
    if isinstance(key, slice):
        f = lambda v: v if v is None else _i(v)
        return slice(f(key.start), f(key.stop), f(key.step)), None
    if isinstance(key, SymBool):
        return bool(key), None
    if isinstance(key, (int, SymInt, rnp.integer)):
        if isinstance(key, SymInt):
            n = a.shape[0] if a.ndim else 0
            if bool(Or(key < -n, key >= n)) and not write:
                raise IndexError("index is out of bounds for axis 0 with size %d" % n)
        return _i(key), None
    if isinstance(key, (SymReal, float)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), None and integer or boolean arrays are valid indices")
    if isinstance(key, (str, SymStr)):
        raise IndexError("only integers, slices are valid indices")
    if isinstance(key, SymND):
        k = key._x()
        if key._dt.kind == "b":
            return rnp.array(_map(k, bool).tolist(), dtype=bool).reshape(k.shape), None
        if key._dt.kind == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        lst = k
    elif isinstance(key, rnp.ndarray):
        return key, None
    elif isinstance(key, (list, range)) or hasattr(key, "__iter__"):
        lst = obj_array(list(key))
        if lst.size and all(isinstance(x, (bool, SymBool)) for x in lst.reshape(-1)):
            return rnp.array([bool(x) for x in lst.reshape(-1)], dtype=bool).reshape(lst.shape), None
    else:
        raise IndexError("invalid index %s" % type(key).__name__)
    flat = lst.reshape(-1)
    if any(isinstance(x, (SymReal, float)) for x in flat):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if any(isinstance(x, SymInt) for x in flat) and not write:
        n = a.shape[0]

        def gather(arr, lst=lst):
            res = rnp.empty(lst.shape + arr.shape[1:], dtype=object)
            for k in rnp.ndindex(*lst.shape):
                res[k] = gather_row(arr, lst[k])
            return res

        return None, gather
    return rnp.array([_i(x) for x in flat], dtype=rnp.intp).reshape(lst.shape), None


def tuple_gather(key, a):
    """(i0, i1, ...) of integers and integer arrays, some of them symbolic:
    a selection without forking"""
    parts = []
    sym = False
    for k in key:
        if isinstance(k, SymND) and k._dt.kind in "iu":
            x = k._x()
        elif isinstance(k, rnp.ndarray) and k.dtype.kind in "iu":
            x = k.astype(object)
        elif isinstance(k, (int, SymInt, rnp.integer)) and not isinstance(k, bool):
            x = rnp.empty((), dtype=object)
            x[()] = core._conv(k)
        else:
            return None
        sym = sym or any(isinstance(v, SymInt) for v in x.reshape(-1))
        parts.append(x)
    if not sym or len(parts) > a.ndim or all(p.ndim == 0 for p in parts):
        return None
    try:
        parts = rnp.broadcast_arrays(*parts)
    except ValueError:
        raise IndexError("shape mismatch: indexing arrays could not be broadcast together")

    def gather(arr):
        sh = parts[0].shape
        res = rnp.empty(sh + arr.shape[len(parts):], dtype=object)
        for k in rnp.ndindex(*sh):
            cur = arr
            for p in parts:
                cur = gather_row(cur, core._conv(p[k]))
            res[k] = cur
        return res

    return gather


def gather_row(arr, idx):
    n = arr.shape[0]
    if isinstance(idx, int):
        return arr[idx]
    if bool(Or(idx < -n, idx >= n)):
        raise IndexError("index out of bounds for axis 0 with size %d" % n)
    row = arr[n - 1]
    for r in range(n - 2, -1, -1):
        cond = Or(idx == r, idx == r - n)
        if cond is False:
            continue
        row = _ite_arr(cond, arr[r], row)
    return row


def _ite_arr(c, a, b):
    if not isinstance(a, rnp.ndarray):
        return _ite(c, a, b)
    r = rnp.empty(a.shape, dtype=object)
    for k in rnp.ndindex(*a.shape):
        r[k] = _ite(c, a[k], b[k])
    return r


def _ite(c, a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return ite_real(c, a, b)
    return core.ite_int(c, a, b)


def obj_array(x):
    """nested lists -> object ndarray"""
    def shape_of(v):
        if isinstance(v, SymND):
            return v._x().shape
        if isinstance(v, rnp.ndarray):
            return v.shape
        if isinstance(v, (list, tuple, range)):
            if len(v) == 0:
                return (0, )
            ss = [shape_of(i) for i in v]
            if any(s != ss[0] for s in ss):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            return (len(v), ) + ss[0]
        return ()

    def fill(r, v):
        if isinstance(v, SymND):
            r[...] = v._x()
        elif isinstance(v, rnp.ndarray):
            r[...] = v
        else:
            for k, i in enumerate(v):
                if isinstance(i, (list, tuple, SymND, rnp.ndarray, range)):
                    fill(r[k:k + 1].reshape(r.shape[1:]) if r.ndim > 1 else r[k], i)
                else:
                    r[k] = i

    if isinstance(x, SymND):
        return x._x().copy()
    s = shape_of(x)
    r = rnp.empty(s, dtype=object)
    if s == ():
        r[()] = x
        return r
    fill(r, x)
    return r


def _conv_array_like(x, dtype=None):
    """objects with __array__, iterators -> SymND/list"""
    if isinstance(x, (SymND, list, tuple, SymReal, SymInt, SymBool, int, float, SymStr, str, SymBytes, bytes)) or x is None:
        return x
    if isinstance(x, rnp.ndarray):
        return lift(x)
    if isinstance(x, rnp.generic):
        return x.item()
    if hasattr(x, "__array__"):
        r = x.__array__(dtype) if dtype is not None else x.__array__()
        return r
    if isinstance(x, range):
        return list(x)
    if hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (set, dict)):
        return [x[i] for i in range(len(x))]
    return x


def lift(a):
    """real ndarray -> SymND"""
    r = rnp.empty(a.shape, dtype=object)
    fa, fr = a.reshape(-1), r.reshape(-1)
    for k in range(fa.size):
        fr[k] = to_elem(fa[k].item(), a.dtype)
    return new_x(r, a.dtype)


def value_array(v, dt):
    """value -> object ndarray with elements converted to dt"""
    v = _conv_array_like(v, dt)
    if isinstance(v, SymND):
        a = v._x()
        if dt is None or v._dt.kind == dt.kind:
            return a
    else:
        a = obj_array(v)
    if dt is None:
        return a
    return _map(a, lambda e: to_elem(e, dt))


def infer_dtype(a):
    kinds = set()
    for v in a.reshape(-1):
        if isinstance(v, (SymReal, float)):
            kinds.add("f")
        elif isinstance(v, (bool, SymBool)):
            kinds.add("b")
        elif isinstance(v, (int, SymInt)):
            kinds.add("i")
        elif isinstance(v, (str, SymStr)):
            kinds.add("U")
        else:
            kinds.add("O")
    if "O" in kinds or "U" in kinds:
        return rnp.dtype(object)
    if "f" in kinds or not kinds:
        return rnp.dtype("float64")
    if "i" in kinds:
        return rnp.dtype("int64")
    return rnp.dtype(bool)


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0):
    if isinstance(x, SymND):
        r = x.copy() if copy else x
        if not subok and type(r) is not SymND:
            r = r.view(SymND)
        if dtype is not None:
            r = r.astype(dtype)
        return r
    y = _conv_array_like(x, _dt(dtype) if dtype is not None else None)
    if isinstance(y, SymND):
        return y if dtype is None else y.astype(dtype)
    if not isinstance(y, (list, tuple)) and hasattr(y, "__iter__") and not isinstance(y, (str, SymStr)):
        y = obj_array([y]).reshape(())  # generators etc. become 0-d objects
        raise Unsupported("array of a generator")
    # a list of arrays keeps their dtype
    a = obj_array(y)
    if dtype is not None:
        d = _dt(dtype)
    else:
        ds = [e._dt for e in y if isinstance(e, SymND)] if isinstance(y, (list, tuple)) else []
        d = rnp.result_type(*ds) if ds and len(ds) == len(y) else infer_dtype(a)
        if not ds and d.kind == "f" and a.size and all(isinstance(v, SymReal) for v in a.reshape(-1)):
            d = rnp.dtype("float32")
    a = _map(a, lambda e: to_elem(e, d)) if d.kind != "O" else a
    if ndmin > a.ndim:
        a = a.reshape((1, ) * (ndmin - a.ndim) + a.shape)
    return new_x(a, d)


def asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, SymND):
        r = x if type(x) is SymND else x.view(SymND)
        if dtype is not None and _dt(dtype) != r._dt:
            r = r.astype(dtype)
        return r
    return array(x, dtype)


def asanyarray(x, dtype=None, order=None):
    if isinstance(x, SymND):
        return x if dtype is None or _dt(dtype) == x._dt else x.astype(dtype)
    return array(x, dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_num(i) for i in s)
    if isinstance(s, SymND):
        return tuple(_num(i) for i in s.tolist())
    return (_num(s), )


def _full(shape, dtype, mk, cls=None):
    shape = _shape(shape)
    for s in shape:
        if bool(s < 0):
            raise ValueError("negative dimensions are not allowed")
    d = _dt(dtype)
    n = _prod(shape)
    if all(isinstance(s, int) for s in shape) and n <= 4096:
        a = rnp.empty(shape, dtype=object)
        f = a.reshape(-1)
        for k in range(n):
            f[k] = mk(d)
        return new_x(a, d, cls)
    return None, shape, d, n


def zeros(shape, dtype=float, order="C"):
    r = _full(shape, dtype, lambda d: to_elem(0, d))
    if isinstance(r, tuple):
        _, s, d, n = r
        return new_o(s, SymBytes([Fill(n * d.itemsize)]), d)
    return r


def ones(shape, dtype=float, order="C"):
    r = _full(shape, dtype, lambda d: to_elem(1, d))
    if isinstance(r, tuple):
        raise Unsupported("ones with symbolic shape")
    return r


def full(shape, v, dtype=None, order="C"):
    if dtype is None:
        dtype = "float64" if isinstance(v, (float, SymReal)) else "int64"
    if isinstance(v, SymND) or isinstance(v, (list, tuple)):
        r = zeros(shape, dtype)
        r[...] = v
        return r
    r = _full(shape, dtype, lambda d: to_elem(v, d))
    if isinstance(r, tuple):
        raise Unsupported("full with symbolic shape")
    return r


def _uninit(d):
    c = ctx()
    if d.kind == "f":
        return SymReal(z3.Real(c.fresh("uninit")))
    if d.kind in "iu":
        v = z3.Int(c.fresh("uninit"))
        c.add(z3.And(v >= 0, v < 256))
        return SymInt(v)
    return False


def _empty(shape, dtype=float, cls=None):
    r = _full(shape, dtype, _uninit, cls)
    if isinstance(r, tuple):
        _, s, d, n = r
        return new_o(s, SymBytes([Blob(ctx().fresh("uninit"), 0, n * d.itemsize)]), d, cls)
    return r


def empty(shape, dtype=float, order="C"):
    return _empty(shape, dtype)


def _like(f):
    def g(a, dtype=None, order=None, subok=True, shape=None):
        a = asanyarray(a)
        return f(a.shape if shape is None else shape, dtype or a._dt)
    return g


def arange(*args, dtype=None):
    if any(isinstance(a, (float, SymReal)) for a in args):
        raise Unsupported("float arange")
    return array(list(range(*[_i(a) for a in args])), dtype=dtype or "int64")


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if not isinstance(out, SymND):
        raise TypeError("return arrays must be of ArrayType")
    rs = r.shape if isinstance(r, SymND) else ()
    if tuple(rs) != tuple(SymND.shape.fget(out)):
        raise ValueError("output parameter has wrong dimensions or shape: %s vs %s" % (rs, out.shape))
    if isinstance(r, SymND) and r._dt.kind == "f" and out._dt.kind in "iu":
        raise TypeError("Cannot cast ufunc output")
    if out._ro:
        raise ValueError("output array is read-only")
    out._a[...] = value_array(r, out._dt)
    return out


def elementwise(a, b, f):
    try:
        shape = rnp.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes %s %s" % (a.shape, b.shape))
    a, b = rnp.broadcast_to(a, shape), rnp.broadcast_to(b, shape)
    r = rnp.empty(shape, dtype=object)
    for k in rnp.ndindex(*shape):
        r[k] = f(a[k], b[k])
    return r


def _operand(x):
    x = _conv_array_like(x)
    if isinstance(x, SymND):
        return x._x(), x._dt
    if isinstance(x, (list, tuple)):
        y = array(x)
        return y._x(), y._dt
    a = rnp.empty((), dtype=object)
    a[()] = x
    return a, None


def binop(x, y, f, cmp=False):
    if cmp and (x is None or y is None):
        return NotImplemented
    a, da = _operand(x)
    b, db = _operand(y)
    r = elementwise(a, b, f)
    if cmp:
        d = rnp.dtype(bool)
    else:
        ds = [d.newbyteorder("=") if d.byteorder == ">" else d for d in (da, db) if d is not None]
        d = rnp.result_type(*ds)
        scal = [s for s, dd in ((x, da), (y, db)) if dd is None]
        if d.kind in "iub" and any(isinstance(s, (float, SymReal)) for s in scal):
            d = rnp.dtype("float64")
        if d.kind in "iub" and f.__name__ == "truediv":
            d = rnp.dtype("float64")
    if r.ndim == 0:
        return r.item()
    return new_x(r, d, _cls_of(x, y))


def _sum(vs, zero):
    acc = zero
    for v in vs:
        acc = acc + v
    return acc


def _fold(vs, f, initial=None):
    vs = list(vs)
    if initial is not None:
        vs = [initial] + vs
    if not vs:
        raise ValueError("zero-size array to reduction operation which has no identity")
    r = vs[0]
    for v in vs[1:]:
        r = f(r, v)
    return r


def _argbest(vs, better):
    if not vs:
        raise ValueError("attempt to get argmax of an empty sequence")
    b = 0
    for k in range(1, len(vs)):
        if better(vs[k], vs[b]):
            b = k
    return b


def sort_idx(vs):
    idx = []
    for k in range(len(vs)):
        p = len(idx)
        while p > 0 and bool(vs[idx[p - 1]] > vs[k]):
            p -= 1
        idx.insert(p, k)
    return idx


def partition_idx(vs, kth):
    """A permutation that satisfies argpartition's contract and nothing more:
    both sides are returned in reversed order."""
    n = len(vs)
    if isinstance(kth, (list, tuple)):
        raise Unsupported("argpartition with several kth")
    kth = _i(kth)
    if not -n <= kth < n:
        raise ValueError("kth(=%d) out of bounds (%d)" % (kth, n))
    kth %= n
    idx = sort_idx(vs)
    return idx[:kth][::-1] + [idx[kth]] + idx[kth + 1:][::-1]


def dot(a, b, out=None):
    a, b = _conv_array_like(a), _conv_array_like(b)
    if not isinstance(a, SymND) and isinstance(a, (list, tuple)):
        a = array(a)
    if not isinstance(b, SymND) and isinstance(b, (list, tuple)):
        b = array(b)
    if not isinstance(a, SymND) or not isinstance(b, SymND):
        return a * b
    x, y = a._x(), b._x()
    d = rnp.result_type(a._dt, b._dt)
    zero = SymReal(z3.RealVal(0)) if d.kind == "f" else 0

    def inner(u, v):
        return _sum([p * q for p, q in zip(u, v)], zero)

    if x.ndim == 0 or y.ndim == 0:
        return a * b
    if x.shape[-1] != (y.shape[0] if y.ndim == 1 else y.shape[-2]):
        raise ValueError("shapes %s and %s not aligned" % (x.shape, y.shape))
    if x.ndim == 1 and y.ndim == 1:
        return inner(x, y)
    if y.ndim == 1:
        r = rnp.empty(x.shape[:-1], dtype=object)
        for k in rnp.ndindex(*r.shape):
            r[k] = inner(x[k], y)
    elif y.ndim == 2:
        r = rnp.empty(x.shape[:-1] + (y.shape[1], ), dtype=object)
        for k in rnp.ndindex(*x.shape[:-1]):
            for j in range(y.shape[1]):
                r[k + (j, )] = inner(x[k], y[:, j])
    else:
        raise Unsupported("dot n-d")
    res = new_x(r, d, _cls_of(a, b))
    if out is not None:
        if out._dt != d or out.shape != res.shape:
            raise ValueError("output array is not acceptable (must have the right datatype, number of dimensions, and be a C-Array)")
        return _out(res, out)
    return res


class UFunc:
    def __init__(self, name, f, nin=2, cmp=False):
        self.__name__ = name
        self.f = f
        self.nin = nin
        self.cmp = cmp

    def __call__(self, *args, out=None, dtype=None, where=True, casting=None, **kw):
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where without out")
            o = out[0] if isinstance(out, tuple) else out
            r = self(*args)
            w = globals()["where"](where, r, o)
            o[...] = w
            return o
        if self.nin == 1:
            x = _conv_array_like(args[0])
            if isinstance(x, (list, tuple)):
                x = array(x)
            if isinstance(x, SymND):
                d = rnp.dtype(bool) if self.cmp else x._dt
                r = new_x(_map(x._x(), self.f), d, type(x))
            else:
                r = self.f(x)
        else:
            r = binop(args[0], args[1], self.f, self.cmp)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if isinstance(r, SymND):
                return _out(r, out)
            out[...] = r
            return out
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=None):
        a = asanyarray(_conv_array_like(a))
        ident = {"add": SymReal(z3.RealVal(0)) if a._dt.kind == "f" else 0, "multiply": 1}.get(self.__name__)

        def f(v):
            v = list(v)
            if initial is not None:
                v = [initial] + v
            if not v:
                if ident is None:
                    raise ValueError("zero-size array to reduction operation %s which has no identity" % self.__name__)
                return ident
            r = v[0]
            for x in v[1:]:
                r = self.f(r, x)
            return r

        if out is not None:
            r = a._red(f, axis, keepdims, None, dtype=dtype)
            if not isinstance(r, SymND):
                out[...] = r
                return out
            return _out(r, out)
        return a._red(f, axis, keepdims, out, dtype=dtype)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(-1)[:, None], b.reshape(-1)[None, :])

    def at(self, a, idx, b=None):
        key, _ = norm_key(idx, a._a, True)
        b = value_array(b, a._dt)
        b = rnp.broadcast_to(b, rnp.asarray(a._a[key]).shape)
        for k, i in enumerate(rnp.asarray(key).reshape(-1)):
            a._a[i] = elementwise(rnp.asarray(a._a[i], dtype=object), b[k] if b.ndim else b, self.f)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asanyarray(_conv_array_like(x))
    if ord is None or ord == 2 or (isinstance(ord, str) and ord == "fro"):
        if ord == 2 and axis is None and x.ndim == 2:
            raise Unsupported("spectral norm")
        f = lambda v: core.sqrt(_sum([e * e for e in v], SymReal(z3.RealVal(0))))
    elif ord == 1:
        f = lambda v: _sum([abs(e) for e in v], SymReal(z3.RealVal(0)))
    elif ord == math.inf:
        f = lambda v: _fold([abs(e) for e in v], lambda a, b: a if a >= b else b)
    else:
        raise Unsupported("norm ord")
    r = x._red(f, axis, keepdims, None, dt=x._dt if x._dt.kind == "f" else rnp.dtype("float64"))
    if isinstance(r, SymND) and type(r) is not SymND:
        r = r.view(SymND) if False else r
    return r


def fromfile(file, dtype=float, count=-1, sep="", offset=0, like=None):
    if sep:
        raise Unsupported("fromfile sep")
    d = _dt(dtype)
    close = False
    if isinstance(file, files.SymText):
        file = file.raw
    if not isinstance(file, files.SymFile):
        file = files.sym_open(file, "rb")
    if file.name == "<BytesIO>":
        raise OSError("obtaining file position failed")
    if offset is not None and not (isinstance(offset, int) and offset == 0):
        file.seek(offset, 1)
    count = _num(count)
    size = d.itemsize
    if (isinstance(count, int) and count < 0) or (not isinstance(count, int) and not ctx().must(count >= 0)
                                                  and bool(count < 0)):
        if isinstance(count, int) and count != -1:
            pass
        av = file.avail()
        n = av // size
        if not isinstance(n, int) and bool(n < 0):
            n = 0
        data = file.read(n * size)
        file.read()
    else:
        need = count * size
        if file.node.limit is None and files.enough(file.rest, need):
            n = count
        else:
            av = file.avail()
            if bool(need <= av):
                n = count
            else:
                n = av // size if bool(av > 0) else 0
        data = file.read(n * size)
        if n is not count:
            file.read()
    return from_rope(data, d, (n, ))


def frombuffer(buf, dtype=float, count=-1, offset=0):
    d = _dt(dtype)
    b = rope.lift_bytes(buf)
    total = b.sym_len() - offset
    if isinstance(count, int) and count == -1:
        if not bool(total % d.itemsize == 0):
            raise ValueError("buffer size must be a multiple of element size")
        n = total // d.itemsize
    else:
        n = count
        if not bool(total >= n * d.itemsize):
            raise ValueError("buffer is smaller than requested size")
    ro = not isinstance(buf, (bytearray, rope.SymByteArray))
    return from_rope(b[offset:offset + n * d.itemsize], d, (n, ), ro=ro)


def concatenate(arrs, axis=0, out=None, dtype=None):
    arrs = [asanyarray(a) for a in arrs]
    d = rnp.result_type(*[a._dt for a in arrs]) if dtype is None else _dt(dtype)
    if all(a._mode == "o" for a in arrs) and axis == 0:
        n = 0
        segs = []
        for a in arrs:
            n = n + a._shape[0]
            segs.extend(a._r.segs)
        return new_o((n, ) + tuple(arrs[0]._shape[1:]), SymBytes(segs), d)
    return _out(new_x(rnp.concatenate([a._x() for a in arrs], axis=axis), d), out)


def stack(arrs, axis=0):
    arrs = [asanyarray(a) for a in arrs]
    return new_x(rnp.stack([a._x() for a in arrs], axis=axis), rnp.result_type(*[a._dt for a in arrs]))


def vstack(arrs):
    arrs = [asanyarray(a) for a in arrs]
    return new_x(rnp.vstack([a._x() for a in arrs]), rnp.result_type(*[a._dt for a in arrs]))


def hstack(arrs):
    arrs = [asanyarray(a) for a in arrs]
    return new_x(rnp.hstack([a._x() for a in arrs]), rnp.result_type(*[a._dt for a in arrs]))


def where(c, a=None, b=None):
    if a is None:
        return asanyarray(c).nonzero()
    ca, _ = _operand(c)
    xa, da = _operand(a)
    xb, db = _operand(b)
    shape = rnp.broadcast_shapes(ca.shape, xa.shape, xb.shape)
    ca, xa, xb = (rnp.broadcast_to(v, shape) for v in (ca, xa, xb))
    r = rnp.empty(shape, dtype=object)
    for k in rnp.ndindex(*shape):
        r[k] = _ite(ca[k], xa[k], xb[k])
    ds = [d for d in (da, db) if d is not None]
    d = rnp.result_type(*ds) if ds else infer_dtype(r)
    return new_x(_map(r, lambda e: to_elem(e, d)), d)


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a._mode == "o" or b._mode == "o":
        if a.ndim != b.ndim or not bool(And(*[p == q for p, q in zip(a.shape, b.shape)])):
            return False
        return rope.rope_eq(a.tobytes(), b.tobytes())
    if a.shape != b.shape:
        return False
    return And(*[p == q for p, q in zip(a._x().reshape(-1), b._x().reshape(-1))])


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a._mode == "o" or b._mode == "o" or equal_nan:
        raise Unsupported("isclose")
    return binop(a, b, lambda p, q: abs(p - q) <= atol + rtol * abs(q), True)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return And(*list(r._x().reshape(-1))) if isinstance(r, SymND) else r


def unique(a, return_index=False, return_inverse=False, return_counts=False):
    a = asarray(a)
    vals = []
    if return_index or return_inverse or return_counts:
        raise Unsupported("unique options")
    idx = sort_idx(list(a._x().reshape(-1)))
    x = a._x().reshape(-1)
    for i in idx:
        if not vals or not bool(vals[-1] == x[i]):
            vals.append(x[i])
    return array(vals, dtype=a._dt)


def einsum(spec, *ops, out=None, **kw):
    if not isinstance(spec, str) or "." in spec or len(ops) > 2:
        raise Unsupported("einsum")
    spec = spec.replace(" ", "")
    ins, _, res = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        res = "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
    ops = [asarray(_conv_array_like(o)) for o in ops]
    dims = {}
    for term, o in zip(ins, ops):
        if len(term) != o.ndim:
            raise ValueError("einstein sum subscripts do not match the operand")
        for c, n in zip(term, o._x().shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together")
    inner = [c for c in dims if c not in res]
    r = rnp.empty(tuple(dims[c] for c in res), dtype=object)
    for k in rnp.ndindex(*r.shape):
        env = dict(zip(res, k))
        tot = []
        for j in rnp.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, j))
            tot.append(_prod(o._x()[tuple(env[c] for c in t)] for t, o in zip(ins, ops)))
        r[k] = _sum(tot, SymReal(z3.RealVal(0)) if all(o._dt.kind == "f" for o in ops) else 0)
    d = rnp.result_type(*[o._dt for o in ops])
    if r.ndim == 0:
        return r.item()
    return _out(new_x(r, d), out)


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
        return
    dst[...] = globals()["where"](where, src, dst)


def isin(a, vals, assume_unique=False, invert=False):
    a = asarray(_conv_array_like(a))
    vals = list(vals) if isinstance(vals, (set, frozenset, list, tuple, range, dict)) or hasattr(vals, "sym_items") else vals
    vals = list(asarray(_conv_array_like(vals))._x().reshape(-1))
    f = lambda e: Or(*[e == v for v in vals]) if vals else False
    g = (lambda e: Not(f(e))) if invert else f
    return new_x(_map(a._x(), g), rnp.dtype(bool))


def append(a, v, axis=None):
    a, v = asarray(_conv_array_like(a)), asarray(_conv_array_like(v))
    if axis is None:
        a, v, axis = a.reshape(-1), v.reshape(-1), 0
    return concatenate([a, v], axis)


def delete(a, idx, axis=None):
    a = asarray(_conv_array_like(a))
    if axis is None:
        a, axis = a.reshape(-1), 0
    if isinstance(idx, SymND):
        idx = [_i(e) for e in idx._x().reshape(-1)]
    elif not isinstance(idx, (int, slice)):
        idx = _i(idx) if not hasattr(idx, "__iter__") else [_i(e) for e in idx]
    return new_x(rnp.delete(a._x(), idx, axis), a._dt)


def broadcast_to(a, shape, subok=False):
    a = asarray(_conv_array_like(a))
    return new_x(rnp.broadcast_to(a._x(), tuple(_i(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape, )))), a._dt, ro=True)


def column_stack(arrs):
    arrs = [asanyarray(_conv_array_like(a)) for a in arrs]
    return new_x(rnp.column_stack([a._x() for a in arrs]), rnp.result_type(*[a._dt for a in arrs]))


def isnan(x):
    f = lambda v: isinstance(v, SymReal) and v.e is None
    if isinstance(x, SymND):
        return new_x(_map(x._x(), f), rnp.dtype(bool))
    return f(x)


def isfinite(x):
    f = lambda v: not (isinstance(v, SymReal) and v.e is None)
    if isinstance(x, SymND):
        return new_x(_map(x._x(), f), rnp.dtype(bool))
    return f(x)


def _meth(name):
    def g(a, *args, **kw):
        return getattr(asanyarray(_conv_array_like(a)), name)(*args, **kw)
    g.__name__ = name
    return g


def sort(a, *args, **kw):
    r = asarray(a).copy()
    r.sort()
    return r


def issubdtype(a, b):
    return rnp.issubdtype(a, b)


def make_numpy():
    """The module that replaces numpy in the code under test."""
    import operator as op
    m = types.ModuleType("numpy")
    d = {}
    for n in ("zeros ones full empty array asarray asanyarray arange dot concatenate stack vstack hstack where "
              "array_equal unique einsum fromfile frombuffer sort issubdtype isnan isfinite copyto isin append delete "
              "broadcast_to column_stack").split():
        d[n] = globals()[n]
    d["in1d"] = isin
    d["flatnonzero"] = lambda a: asanyarray(_conv_array_like(a)).reshape(-1).nonzero()[0]
    d["count_nonzero"] = lambda a: len(asanyarray(_conv_array_like(a)).reshape(-1).nonzero()[0])
    d["newaxis"] = None
    d["ndarray"] = SymND
    d["memmap"] = MemMap
    d["isinf"] = isnan
    d["ascontiguousarray"] = lambda a, dtype=None: asarray(a, dtype)
    d["require"] = lambda a, dtype=None, requirements=None: asarray(a, dtype)
    d["zeros_like"], d["ones_like"], d["empty_like"] = _like(zeros), _like(ones), _like(empty)
    d["full_like"] = lambda a, v, dtype=None: full(asanyarray(a).shape, v, dtype or asanyarray(a)._dt)
    for n in ("sum mean prod max min any all argmax argmin argsort argpartition reshape ravel squeeze take repeat "
              "transpose cumsum copy swapaxes clip nonzero").split():
        d[n] = _meth(n)
    d["amax"], d["amin"] = d["max"], d["min"]
    d["partition"] = lambda a, kth: _part(a, kth)
    d["shape"] = lambda a: asanyarray(a).shape
    d["ndim"] = lambda a: asanyarray(a).ndim
    d["size"] = lambda a: asanyarray(a).size
    d["matmul"] = dot
    d["inner"] = dot
    d["vdot"] = lambda a, b: dot(asanyarray(a).reshape(-1), asanyarray(b).reshape(-1))
    d["atleast_1d"] = lambda a: asanyarray(a) if asanyarray(a).ndim else asanyarray(a).reshape(1)
    d["atleast_2d"] = lambda a: asanyarray(a) if asanyarray(a).ndim >= 2 else asanyarray(a).reshape(1, -1)
    d["expand_dims"] = lambda a, axis: new_x(rnp.expand_dims(asanyarray(a)._x(), axis), asanyarray(a)._dt)
    d["flip"] = lambda a, axis=None: new_x(rnp.flip(asanyarray(a)._x(), axis), asanyarray(a)._dt)
    d["tile"] = lambda a, r: new_x(rnp.tile(asanyarray(a)._x(), r), asanyarray(a)._dt)
    d["fromiter"] = lambda it, dtype, count=-1: array(list(it), dtype)
    d["outer"] = lambda a, b: UFunc("multiply", op.mul).outer(a, b)
    for n, f in dict(add=op.add, subtract=op.sub, multiply=op.mul, divide=op.truediv, true_divide=op.truediv,
                     power=op.pow, mod=op.mod, floor_divide=op.floordiv).items():
        d[n] = UFunc(n, f)
    for n, f in dict(equal=op.eq, not_equal=op.ne, less=op.lt, greater=op.gt, less_equal=op.le,
                     greater_equal=op.ge).items():
        d[n] = UFunc(n, f, cmp=True)
    d["maximum"] = UFunc("maximum", lambda a, b: a if a >= b else b)
    d["minimum"] = UFunc("minimum", lambda a, b: a if a <= b else b)
    d["sqrt"] = UFunc("sqrt", core.sqrt, 1)
    d["square"] = UFunc("square", lambda a: a * a, 1)
    d["negative"] = UFunc("negative", lambda a: -a, 1)
    d["absolute"] = d["abs"] = UFunc("absolute", abs, 1)
    d["logical_not"] = UFunc("logical_not", Not, 1, cmp=True)
    d["logical_and"] = UFunc("logical_and", lambda a, b: And(a, b), 2, cmp=True)
    d["logical_or"] = UFunc("logical_or", lambda a, b: Or(a, b), 2, cmp=True)
    d["allclose"], d["isclose"] = allclose, isclose
    d["round"] = d["around"] = d["round_"] = lambda a, decimals=0, out=None: asanyarray(a).round(decimals, out)
    d["may_share_memory"] = lambda a, b: isinstance(a, SymND) and isinstance(b, SymND) and rnp.may_share_memory(a._a, b._a)
    d["shares_memory"] = d["may_share_memory"]
    d["isscalar"] = lambda x: isinstance(x, (SymInt, SymReal, SymBool, int, float, str, SymStr))
    d["bool_"] = rnp.bool_
    la = types.ModuleType("numpy.linalg")
    la.norm = norm
    d["linalg"] = la
    d["errstate"] = rnp.errstate
    d["seterr"] = lambda **k: {}
    for k, v in d.items():
        setattr(m, k, v)

    def fallback(name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(rnp, name)
        if isinstance(v, type) or not callable(v):
            return v

        def unsupported(*a, **k):
            if rope.contains_sym(a) or rope.contains_sym(k):
                raise Unsupported("numpy.%s" % name)
            r = v(*a, **k)
            return lift(r) if isinstance(r, rnp.ndarray) else r

        return unsupported

    m.__getattr__ = fallback

    def lafallback(name):
        def unsupported(*a, **k):
            raise Unsupported("numpy.linalg.%s" % name)
        if name.startswith("__"):
            raise AttributeError(name)
        return unsupported

    la.__getattr__ = lafallback
    m.__path__ = []
    return m, la


def _part(a, kth):
    r = asarray(a).copy()
    r.partition(kth)
    return r
