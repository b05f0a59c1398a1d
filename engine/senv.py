"""Symbolic environment (see engine.envs)."""
import linecache
import os
import sys
import traceback
from fractions import Fraction

import numpy as rnp
import z3

from . import core, rope, files, arr, vcall, loader, llvm
from .core import (SymInt, SymReal, SymBool, Unsupported, Ctl, mkbool, mkint, mkbv, int_expr, real_expr)
from .rope import SymStr, SymBytes, lift_bytes, lift_str, Lit, Blob, Fill, Num
from .envs import Outcome
from .vcall import SymDict

ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))
GAP = (AttributeError, TypeError, NameError, NotImplementedError, IndexError, KeyError, ValueError, RecursionError,
       AssertionError, UnboundLocalError, ZeroDivisionError)


def engine_gap(ex):
    """True if an exception shows a hole in the engine's models rather than
    behaviour of the code."""
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    msg = str(ex.args[0]) if ex.args and isinstance(ex.args[0], str) else ""
    if any(s in msg for s in ("Sym", "MemMap", "UFunc", "CyArray", "SysProxy", "StdStream")) and isinstance(
            ex, (AttributeError, TypeError, ValueError)):
        return True
    if isinstance(ex, RecursionError):
        return True
    if fn.startswith(ENGINE_DIR) and isinstance(ex, GAP):
        line = linecache.getline(fn, last.tb_lineno).strip()
        if not (line.startswith("raise") or " raise " in line):
            # a native operation on plain values done on behalf of the code
            return not any(t in line for t in ("return f(", "return g(", "return a % b", "return int(", "toml.loads",
                                               "return len(", "f(*args", "x in c", "return ord(", "iter(", "_new(",
                                               "O.", "[op](a, b)", "return b[", "r = b[i]", "getattr(o, name)",
                                               ".encode(", ".decode(", "next(", "return float(", "float(s", "hash("))
    return False


class S:
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.fs = files.FS()
        self.world = loader.World()
        self.np = self.world.np
        self.notes = []

    def mod(self, name):
        return self.world.load(name)

    # -- inputs
    def _reg(self, name, kind, *data):
        if name in self.ctx.inputs:
            raise Unsupported("input %s twice" % name)
        self.ctx.inputs[name] = (kind, ) + data

    def int(self, name, lo=0, hi=None, soft=6):
        v = z3.Int(name)
        self._reg(name, "int", v)
        if lo is not None:
            self.ctx.add(v >= lo)
        if hi is not None:
            self.ctx.add(v <= hi)
        if soft is not None:
            self.ctx.soft.append(v <= soft if lo is None or lo <= soft else v <= lo + soft)
        return SymInt(v)

    def bv(self, name, lo=0, hi=0xffffffff, soft=None):
        """unsigned value as a bit-vector"""
        w = hi.bit_length()
        v = z3.BitVec(name, w)
        self._reg(name, "bv", v)
        if lo:
            self.ctx.add(z3.UGE(v, lo))
        if hi != (1 << w) - 1:
            self.ctx.add(z3.ULE(v, hi))
        if soft is not None:
            self.ctx.soft.append(z3.ULE(v, soft))
        return SymInt(None, z3.ZeroExt(1, v), True)

    def small(self, v, limit=200000):
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def choice(self, name, options):
        if len(options) == 1:
            self._reg(name, "const", 0)
            return options[0]
        v = z3.Int(name)
        self._reg(name, "int", v)
        self.ctx.add(z3.And(v >= 0, v < len(options)))
        return options[self.ctx.concretize(v)]

    def real(self, name, soft=None):
        v = z3.Real(name)
        self._reg(name, "real", v)
        k = z3.Int(name + "!k")
        self.ctx.soft.append(z3.And(v == z3.ToReal(k), k >= -8, k <= 8))
        return SymReal(v)

    def word(self, name, n, exclude=(), maxcp=0x10ffff):
        cps = []
        items = []
        for i in range(n):
            b = z3.BitVec("%s.%d" % (name, i), 21)
            self.ctx.add(z3.ULE(b, maxcp))
            if maxcp >= 0xd800:
                self.ctx.add(z3.Or(z3.ULT(b, 0xd800), z3.UGT(b, 0xdfff)))
            for x in exclude:
                if isinstance(x, tuple):
                    self.ctx.add(z3.Or(z3.ULT(b, x[0]), z3.UGT(b, x[1])))
                else:
                    self.ctx.add(b != x)
            self.ctx.soft.append(z3.And(z3.UGE(b, 0x21), z3.ULE(b, 0x7e)))
            cps.append(b)
            items.append(SymInt(None, z3.ZeroExt(1, b), True))
        self._reg(name, "word", cps)
        return SymStr(tuple(items)) if n else ""

    def atom(self, name, minc=0):
        a = rope.Atom(name)
        self._reg(name, "atom", a)
        if minc:
            self.ctx.add(int_expr(a.nchars) >= minc)
        self.ctx.soft.append(z3.And(int_expr(a.nchars) >= 1, int_expr(a.nchars) <= 4))
        return SymStr((a, ))

    def array(self, name, shape, dtype="float32", lo=0, hi=255):
        dt = rnp.dtype(dtype)
        a = rnp.empty(shape, dtype=object)
        for ix in rnp.ndindex(*a.shape):
            key = "%s[%s]" % (name, ",".join(map(str, ix)))
            if dt.kind == "f":
                a[ix] = self.real(key)
            else:
                v = z3.Int(key)
                self._reg(key, "int", v)
                self.ctx.add(z3.And(v >= lo, v <= hi))
                a[ix] = SymInt(v)
        return arr.new_x(a, dt)

    def oarray(self, name, shape, dtype="<f4"):
        self.ctx.memo["opaque"] = True
        dt = rnp.dtype(dtype)
        n = 1
        for s in shape:
            n = n * s
        r = SymBytes([Blob(name, 0, n * dt.itemsize)])
        if dt.byteorder == ">":
            r = arr.rope_swap(r, dt.itemsize)
        return arr.new_o(tuple(shape), r, dt)

    def dict(self, pairs=()):
        return SymDict(pairs)

    # -- assumptions, assertions
    def unsupported(self, what):
        raise Unsupported(what)

    def assume(self, c):
        self.ctx.assume(c)

    def check(self, c, label):
        self.ctx.check(c, label)

    def truth(self, c):
        return bool(c)

    def And(self, *cs):
        return core.And(*cs)

    def Or(self, *cs):
        return core.Or(*cs)

    def Not(self, c):
        return core.Not(c)

    def implies(self, a, b):
        return core.Or(core.Not(a), b)

    def note(self, t):
        self.notes.append(t)

    def eq(self, a, b, tol=None):
        return sym_eq(a, b)

    close = eq

    def same(self, a, b):
        return sym_eq(a, b)

    def tight(self, a, b, parts, rel=None):
        return sym_eq(a, b)

    def near(self, a, b, scale=None):
        return sym_eq(a, b)

    def float32(self, a, b):
        return sym_eq(a, b)

    def lt(self, a, b, parts=(), rel=None):
        return a <= b

    # -- files
    def c_locale(self):
        """text files are ASCII unless told otherwise"""
        self.ctx.fs.locale = "ascii"

    def path(self, name):
        return "/sym/" + name

    def fd(self, path, write=False):
        """a file descriptor"""
        fs = self.ctx.fs
        if write:
            fs.nodes[path] = files.Node()
        n = 1000 + len(fs.fds) + sum(1 for p, _ in fs.opened if isinstance(p, int))
        fs.fds[n] = (fs.nodes[path], write)
        return n

    def read_bytes(self, path):
        n = self.ctx.fs.nodes.get(path)
        if n is None:
            raise FileNotFoundError(path)
        return n.rope()

    def write_bytes(self, path, *parts):
        segs = []
        for p in parts:
            segs.extend(lift_bytes(p).segs)
        self.ctx.fs.nodes[path] = files.Node(segs)

    def file_size(self, path):
        return self.ctx.fs.nodes[path].size()

    def exists(self, path):
        return path in self.ctx.fs.nodes

    def truncated(self, path, new, cut):
        n = self.ctx.fs.nodes[path]
        self.ctx.assume(core.And(cut >= 0, cut < n.size()))
        self.ctx.fs.nodes[new] = files.Node(list(n.segs), limit=cut)
        return new

    def pack(self, fmt, *a):
        return files.pack(fmt, *a)

    def unpack(self, fmt, b):
        return files.unpack(fmt, b)

    def open(self, path, mode="r", **k):
        return vcall.V.call(open, path, mode, **k)

    def toml_bytes(self, d):
        return self.utf8(vcall.toml_dumps(d))

    def raw(self, name, n, exclude=()):
        """n arbitrary bytes"""
        segs = []
        for i in range(n):
            key = "%s.%d" % (name, i)
            b = z3.BitVec(key, 8)
            self._reg(key, "bv", b)
            for x in exclude:
                self.ctx.add(b != x)
            self.ctx.soft.append(z3.And(z3.UGE(b, 0x21), z3.ULE(b, 0x7e)))
            segs.append(rope.Num("i", SymInt(None, z3.ZeroExt(1, b), True), 1))
        return SymBytes(segs)

    def decode(self, b, errors="strict"):
        return b.decode("utf-8", errors)

    def utf8(self, s):
        return vcall.V.call(s.encode, "utf-8") if not isinstance(s, str) else s.encode("utf-8")

    def nbytes(self, s):
        if isinstance(s, str):
            return len(s.encode("utf-8"))
        r = s.encode("utf-8")
        return r.sym_len() if hasattr(r, "sym_len") else len(r)

    def zeros(self, n):
        if isinstance(n, int):
            return b"\0" * n
        return SymBytes([Fill(n)])

    def le_bytes(self, a):
        if isinstance(a, arr.SymND) and a._mode == "o":
            return arr.rope_swap(a._r, a._dt.itemsize) if a._dt.byteorder == ">" else a._r
        a = arr.asarray(a)
        segs = []
        for v in a._x().reshape(-1):
            segs.append(Num("f" if a._dt.kind == "f" else "i", v, a._dt.itemsize))
        return SymBytes(segs)

    def cat(self, *parts):
        r = SymBytes([])
        for p in parts:
            r = r + p
        return r

    def length(self, x):
        return vcall.v_len(x)

    def ite(self, c, a, b):
        return core.ite_int(c, a, b)

    def float(self, text):
        return arr.parse_float(lift_str(text))

    def text(self, t):
        """native string where the text is known"""
        if isinstance(t, str):
            return t
        c = t.concrete()
        return t if c is None else c

    def lines(self, text):
        """lines of an output text"""
        if isinstance(text, str):
            return text.splitlines()
        return [x for x in text.split("\n")][:-1]

    def sqrt(self, x):
        return core.sqrt(x)

    def pick(self, options, i):
        """options[i] for a symbolic i"""
        if isinstance(i, int):
            return options[i]
        r = options[-1]
        for k in range(len(options) - 2, -1, -1):
            r = arr._ite(i == k, options[k], r)
        return r

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(value=vcall.V.call(fn, *a, **k))
        except Ctl:
            raise
        except Exception as ex:
            if engine_gap(ex):
                raise Unsupported("engine gap: %s" % "".join(traceback.format_exception(ex)[-3:]))
            return Outcome(exc=ex)

    def script(self, modname, argv, stdin=None):
        m = self.mod(modname)
        fs = self.ctx.fs
        if stdin is not None:
            st = stdin.encode("utf-8")
            fs.stdin = files.Node(list(lift_bytes(st).segs))
        start = len(fs.stdout)
        old = sys.argv, sys.stderr
        sys.argv = [modname.rsplit(".", 1)[-1]] + list(argv)
        devnull = open(os.devnull, "w")
        sys.stderr = devnull
        code, exc = 0, None
        try:
            m.main()
        except SystemExit as ex:
            code = ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 1)
        except Ctl:
            raise
        except Exception as ex:
            if engine_gap(ex):
                raise Unsupported("engine gap: %s" % "".join(traceback.format_exception(ex)[-3:]))
            exc = ex
        finally:
            sys.argv, sys.stderr = old
            devnull.close()
        out = rope.concat_text([x for x in fs.stdout[start:]])
        return Outcome(exc=exc, code=code, out=out)

    def mapped(self, a):
        while a is not None:
            if isinstance(a, arr.MemMap):
                return True
            a = getattr(a, "base", None)
        return False

    def fnv64(self, data, h):
        """data: list of byte values"""
        for b in data:
            h = _low64(h) ^ _low64(b)
            h = llvm.arith("mul", z3.simplify(h), z3.BitVecVal(0x100000001b3, 64))
            h = SymInt(None, z3.ZeroExt(1, h), True) if not z3.is_bv_value(z3.simplify(h)) else \
                z3.simplify(h).as_long()
        return h

    def ft32(self, data):
        """fastText's hash of a list of byte values"""
        h = z3.BitVecVal(2166136261, 32)
        for b in data:
            b8 = z3.simplify(_low64(b))
            b8 = z3.simplify(z3.Extract(7, 0, b8))
            h = llvm.arith("mul", z3.simplify(h ^ z3.simplify(z3.SignExt(24, b8))), z3.BitVecVal(16777619, 32))
        h = z3.simplify(h)
        return h.as_long() if z3.is_bv_value(h) else SymInt(None, z3.ZeroExt(1, h), True)

    def cps(self, s):
        """code points"""
        if isinstance(s, str):
            return [ord(c) for c in s]
        return list(s.items)

    def byte_list(self, b):
        """byte values of a byte string of known length"""
        return list(b) if isinstance(b, bytes) else [rope.byte_value(u) for u in lift_bytes(b).units()]


def _low64(v):
    from . import cy
    return cy.low(v, 64)


def norm_arr(a):
    if isinstance(a, rnp.ndarray):
        return arr.lift(a)
    if isinstance(a, arr.SymND):
        return a
    f = getattr(a, "__array__", None)
    if f is not None:
        return f()
    return arr.asarray(a)


def sym_eq(a, b):
    """condition (not a fork where avoidable) that two values are the same"""
    if a is b:
        return True
    if isinstance(a, (arr.SymND, rnp.ndarray)) or isinstance(b, (arr.SymND, rnp.ndarray)):
        a, b = norm_arr(a), norm_arr(b)
        sa, sb = a.shape, b.shape
        if len(sa) != len(sb):
            return False
        conds = [x == y for x, y in zip(sa, sb)]
        if any(c is False for c in conds):
            return False
        if a._mode == "x" and b._mode == "x":
            for x, y in zip(a._x().reshape(-1), b._x().reshape(-1)):
                c = sym_eq(x, y)
                if c is False:
                    return False
                conds.append(c)
            return core.And(*conds)
        sh = core.And(*conds)
        if not (sh is True or bool(sh)):
            return False
        if a._dt.itemsize != b._dt.itemsize or a._dt.kind != b._dt.kind:
            raise Unsupported("comparison of opaque arrays of different types")
        return rope.rope_eq(le(a), le(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            c = sym_eq(x, y)
            if c is False:
                return False
            conds.append(c)
        return core.And(*conds)
    if isinstance(a, dict) and isinstance(b, dict):
        return vcall.dict_eq(a, b)
    if isinstance(a, (SymReal, float)) and isinstance(b, (SymReal, float)) and (
            (isinstance(a, SymReal) and a.e is None) or (isinstance(b, SymReal) and b.e is None)):
        return isinstance(a, SymReal) and isinstance(b, SymReal) and a.e is None and b.e is None
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(core.as_bool_expr(a) == core.as_bool_expr(b))
    r = a == b
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def le(a):
    if a._mode == "o":
        return arr.rope_swap(a._r, a._dt.itemsize) if a._dt.byteorder == ">" else a._r
    return SymBytes([Num("f" if a._dt.kind == "f" else "i", v, a._dt.itemsize) for v in a._x().reshape(-1)])


# ------------------------------------------------------- models -> inputs


def frac(v):
    if z3.is_rational_value(v):
        return "%d/%d" % (v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return "%d/%d" % (a.numerator_as_long(), a.denominator_as_long())
    return "0"


def concrete_inputs(ctx, model):
    out = {}
    ev = lambda e: model.eval(e, model_completion=True)
    for name, rec in ctx.inputs.items():
        k = rec[0]
        if k == "int":
            out[name] = ev(rec[1]).as_long()
        elif k == "bv":
            out[name] = ev(rec[1]).as_long()
        elif k == "const":
            out[name] = rec[1]
        elif k == "bool":
            out[name] = z3.is_true(ev(rec[1]))
        elif k == "real":
            out[name] = frac(ev(rec[1]))
        elif k == "word":
            out[name] = [ev(b).as_long() for b in rec[1]]
        elif k == "atom":
            a = rec[1]
            nc, nb = ev(int_expr(a.nchars)).as_long(), ev(int_expr(a.nbytes)).as_long()
            sid = ev(a.sid).as_long()
            out[name] = [nc, nb, "%d/%d/%d" % (sid, nc, nb)]
    return out
