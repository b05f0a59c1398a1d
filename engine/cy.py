"""Symbolic interpreter for the Cython extensions.

The .pyx sources of the working tree go through Cython's own front end up to
and including its type analysis; the typed tree that Cython would generate C
from is then interpreted with C integer semantics on symbolic values.  Extern
C functions and macros are interpreted from clang's LLVM IR (engine.llvm)."""
import builtins
import os
import re
import shutil
import subprocess
import sys
import tempfile

import z3

from . import core, rope, vcall, llvm
from .core import (SymInt, SymReal, SymBool, Unsupported, BoundExceeded, Ctl, mkbv, mkint, mkbool, ctx)
from .rope import SymStr, SymBytes, lift_str, lift_bytes
from .vcall import V, is_sym

_MODS = {}
FUNCS_RUN = set()


def module(name, path):
    m = _MODS.get(name)
    if m is None:
        m = _MODS[name] = CyModule(name, path)
        m.prepare()
    return m


def front_end(name, path):
    """(tree, scratch) of Cython's analysed tree for a module"""
    from Cython.Compiler import Options, Pipeline, Errors, ParseTreeTransforms
    import Cython.Compiler.Main as M
    src = path[:-len(os.path.join(*name.split(".")) + ".pyx")]
    tmp = tempfile.mkdtemp(prefix="verifcy")
    cwd = os.getcwd()
    try:
        dst = os.path.join(tmp, "src")
        shutil.copytree(src, dst, ignore=lambda d, names: [
            n for n in names if n.endswith((".so", ".pyc", ".html")) or n == "__pycache__" or
            (n.endswith(".c") and "finalfusion" in d)])
        os.chdir(dst)
        opts = M.CompilationOptions(Options.default_options, language_level=3)
        cx = M.Context.from_options(opts)
        rel = os.path.join(*name.split(".")) + ".pyx"
        sd = M.FileSourceDescriptor(os.path.abspath(rel), rel)
        source = M.CompilationSource(sd, name, os.getcwd())
        result = M.create_default_resultobj(source, opts)
        out = []
        for p in Pipeline.create_pyx_pipeline(cx, opts, result):
            out.append(p)
            if isinstance(p, ParseTreeTransforms.AnalyseExpressionsTransform):
                break
        Errors.init_thread()
        err, tree = Pipeline.run_pipeline(out, source)
        if err is not None or tree is None:
            raise Unsupported("cython front end: %s" % err)
        return tree, src
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ C types


class CT:
    """C integer type"""
    __slots__ = ("w", "signed")

    def __init__(self, w, signed):
        self.w, self.signed = w, signed

    def lo(self):
        return -(1 << (self.w - 1)) if self.signed else 0

    def hi(self):
        return (1 << (self.w - 1)) - 1 if self.signed else (1 << self.w) - 1


STD = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
    "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
    "unsigned long": (64, False), "PY_LONG_LONG": (64, True), "unsigned PY_LONG_LONG": (64, False),
    "long long": (64, True), "unsigned long long": (64, False), "Py_ssize_t": (64, True), "ssize_t": (64, True),
    "size_t": (64, False), "ptrdiff_t": (64, True), "Py_UCS4": (32, False), "Py_UNICODE": (32, False),
    "Py_hash_t": (64, True), "bint": (32, True),
    "int8_t": (8, True), "uint8_t": (8, False), "int16_t": (16, True), "uint16_t": (16, False),
    "int32_t": (32, True), "uint32_t": (32, False), "int64_t": (64, True), "uint64_t": (64, False),
    "intptr_t": (64, True), "uintptr_t": (64, False), "uint_fast8_t": (8, False),
}


def strip_const(t):
    while True:
        if getattr(t, "is_cv_qualified", False) or getattr(t, "is_const", False) and hasattr(t, "cv_base_type"):
            t = t.cv_base_type
        elif getattr(t, "is_fake_reference", False) or getattr(t, "is_reference", False):
            t = t.ref_base_type
        else:
            return t


def ctype(t, mod=None):
    """CT of a Cython int type, or None"""
    t = strip_const(t)
    if not (getattr(t, "is_int", False) or getattr(t, "is_enum", False)):
        return None
    if getattr(t, "is_typedef", False):
        n = t.typedef_name
        if n in STD:
            return CT(*STD[n])
        c = mod.typedefs.get(n) if mod is not None else None
        if c is not None:
            return c
        return ctype(t.typedef_base_type, mod)
    for f in ("empty_declaration_code", "declaration_code"):
        try:
            n = getattr(t, f)() if f == "empty_declaration_code" else t.declaration_code("").strip()
        except Exception:
            continue
        n = n.strip()
        if n in STD:
            return CT(*STD[n])
    if getattr(t, "is_enum", False):
        return CT(32, True)
    raise Unsupported("C type %s" % t)


def low(v, w):
    """w-bit vector holding v modulo 2**w"""
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if not isinstance(v, SymInt):
        raise Unsupported("C value %r" % type(v))
    if v.bv is None:
        return z3.Int2BV(v.e, w)
    n = v.bv.size()
    if n > w:
        return z3.simplify(z3.Extract(w - 1, 0, v.bv))
    if n < w:
        return z3.simplify(z3.SignExt(w - n, v.bv))
    return v.bv


def from_low(bv, ct):
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return bv.as_signed_long() if ct.signed else bv.as_long()
    if ct.signed:
        return SymInt(None, bv)
    return SymInt(None, z3.ZeroExt(1, bv), True)


def wrap(v, ct):
    """C conversion of an integer value to ct"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        v &= (1 << ct.w) - 1
        if ct.signed and v >> (ct.w - 1):
            v -= 1 << ct.w
        return v
    if isinstance(v, SymBool):
        return v._int()
    if v.bv is None:
        if ctx().must(z3.And(v.e >= ct.lo(), v.e <= ct.hi())):
            return v
        if not ct.signed:
            return v % (1 << ct.w)
        h = 1 << (ct.w - 1)
        return (v + h) % (1 << ct.w) - h
    # already representable by width
    n = v.bv.size()
    if ct.signed and n <= ct.w:
        return v
    if not ct.signed and v.nonneg and n - 1 <= ct.w:
        return v
    return from_low(low(v, ct.w), ct)


def promote(a, b):
    a = a if a.w >= 32 else CT(32, True)
    b = b if b.w >= 32 else CT(32, True)
    if a.signed == b.signed:
        return a if a.w >= b.w else b
    u, s = (b, a) if a.signed else (a, b)
    if u.w >= s.w:
        return u
    return s


def promote1(a):
    return a if a.w >= 32 else CT(32, True)


def to_c_int(v, ct):
    """Python object -> C integer (OverflowError outside the range)"""
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, (int, SymInt)):
        if isinstance(v, (float, SymReal, str, bytes, SymStr, SymBytes)) or v is None or isinstance(
                v, (list, tuple, dict)):
            raise TypeError("an integer is required")
        f = getattr(type(v), "__index__", None)
        if f is None:
            raise TypeError("an integer is required")
        v = f(v)
    if isinstance(v, int):
        if not ct.lo() <= v <= ct.hi():
            raise OverflowError("value too large to convert to C type")
        return int(v)
    if v.bv is not None:
        n = v.bv.size()
        if (ct.signed and n <= ct.w) or (not ct.signed and v.nonneg and n - 1 <= ct.w):
            return v
    if not bool(core.And(v >= ct.lo(), v <= ct.hi())):
        raise OverflowError("value too large to convert to C type")
    if v.bv is not None:
        return from_low(low(v, ct.w), ct)
    return v


# ------------------------------------------------------------------ memory


class Ptr:
    """typed pointer: (buffer, byte offset)"""
    __slots__ = ("buf", "off", "ct")

    def __init__(self, buf, off, ct):
        self.buf, self.off, self.ct = buf, off, ct

    def size(self):
        return 1 if self.ct is None else self.ct.w // 8

    def get(self, i):
        n = self.size()
        i = i if isinstance(i, int) else i.__index__()
        e = getattr(self.buf, "elem", None)
        if e is not None:
            r = e(self.off + i * n, n, self.ct)
            if r is not None:
                return r
        bs = [self.buf.load(self.off + i * n + k) for k in range(n)]
        return from_low(bs[0] if n == 1 else z3.Concat(*reversed(bs)), self.ct)

    def set(self, i, v):
        n = self.size()
        i = i if isinstance(i, int) else i.__index__()
        e = getattr(self.buf, "set_elem", None)
        if e is not None and e(self.off + i * n, n, v):
            return
        bv = low(v, 8 * n)
        for k in range(n):
            self.buf.store(self.off + i * n + k, z3.simplify(z3.Extract(8 * k + 7, 8 * k, bv)))

    def __add__(self, i):
        i = i if isinstance(i, int) else i.__index__()
        return Ptr(self.buf, self.off + i * self.size(), self.ct)

    def __sub__(self, o):
        if isinstance(o, Ptr):
            if o.buf is not self.buf:
                raise Unsupported("pointer difference")
            return (self.off - o.off) // self.size()
        return self + (-o)

    def cmpkey(self):
        return self.off


def wild(what):
    c = ctx()
    c.imprecise.append("read of unspecified memory: " + what)
    return z3.BitVec(c.fresh("wild"), 8)


class BytesBuf:
    def __init__(self, b):
        b = lift_bytes(b)
        self.units = b.units()
        n = b.sym_len()
        if not isinstance(n, int):
            raise Unsupported("pointer into bytes of symbolic length")
        self.n = n

    def load(self, k):
        if k == self.n:
            return z3.BitVecVal(0, 8)
        if not 0 <= k < self.n:
            return wild("outside of a bytes object")
        return low(rope.byte_value(self.units[k]), 8)

    def store(self, k, v):
        raise Unsupported("write to bytes")


class VarBuf:
    """&variable"""

    def __init__(self, fr, name, ct):
        self.fr, self.name, self.ct = fr, name, ct

    def load(self, k):
        if not 0 <= k < self.ct.w // 8:
            return wild("outside of a variable")
        return z3.simplify(z3.Extract(8 * k + 7, 8 * k, low(self.fr.get(self.name), self.ct.w)))

    def elem(self, off, n, ct):
        if off == 0 and n == self.ct.w // 8:
            return wrap(self.fr.get(self.name), ct)
        return None

    def store(self, k, v):
        w = self.ct.w
        bv = low(self.fr.get(self.name), w)
        parts = [v if j == k else z3.Extract(8 * j + 7, 8 * j, bv) for j in range(w // 8)]
        self.fr.set(self.name, from_low(z3.Concat(*reversed(parts)), self.ct))


class CyArray:
    """array.array with C access"""
    CODES = {"b": (8, True), "B": (8, False), "h": (16, True), "H": (16, False), "i": (32, True), "I": (32, False),
             "l": (64, True), "L": (64, False), "q": (64, True), "Q": (64, False)}

    def __init__(self, code, init=()):
        self.typecode = code
        self.ct = CT(*self.CODES[code])
        self.items = [to_c_int(x, self.ct) for x in init]

    def resize(self, n):
        n = n if isinstance(n, int) else n.__index__()
        if n > 4096:
            raise BoundExceeded("array resize")
        if n < len(self.items):
            del self.items[n:]
        while len(self.items) < n:
            self.items.append(None)
        return 0

    def elem(self, off, n, ct):
        if n * 8 == self.ct.w and off % n == 0 and 0 <= off // n < len(self.items):
            v = self.items[off // n]
            if v is None:
                v = from_low(z3.Concat(*[wild("uninitialised array")] + [wild("a") for _ in range(n - 1)])
                             if n > 1 else wild("array"), self.ct)
                self.items[off // n] = v
            return wrap(v, ct)
        return None

    def set_elem(self, off, n, v):
        if n * 8 == self.ct.w and off % n == 0:
            if not 0 <= off // n < len(self.items):
                ctx().imprecise.append("write outside of an array")
                return True
            self.items[off // n] = wrap(v, self.ct)
            return True
        return False

    def load(self, k):
        n = self.ct.w // 8
        if not 0 <= k < n * len(self.items):
            return wild("outside of an array")
        v = self.elem(k - k % n, n, self.ct)
        j = k % n
        return z3.simplify(z3.Extract(8 * j + 7, 8 * j, low(v, self.ct.w)))

    def store(self, k, v):
        raise Unsupported("byte write to array")

    # Python side
    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter([self[i] for i in range(len(self.items))])

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = CyArray(self.typecode)
            r.items = self.items[i]
            return r
        i = i if isinstance(i, int) else i.__index__()
        if i < 0:
            i += len(self.items)
        if not 0 <= i < len(self.items):
            raise IndexError("array index out of range")
        return self.elem(i * self.ct.w // 8, self.ct.w // 8, self.ct)

    def __setitem__(self, i, v):
        i = i if isinstance(i, int) else i.__index__()
        if i < 0:
            i += len(self.items)
        if not 0 <= i < len(self.items):
            raise IndexError("array assignment index out of range")
        self.items[i] = to_c_int(v, self.ct)

    def append(self, v):
        self.items.append(to_c_int(v, self.ct))

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def tolist(self):
        return list(self)


# ------------------------------------------------------------------ frames


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Frame:
    __slots__ = ("vars", "parent", "temps", "sink", "ret", "gen")

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.temps = {} if parent is None else parent.temps
        self.sink = None
        self.gen = None

    def get(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        raise UnboundLocalError("local variable %r referenced before assignment" % name)

    def has(self, name):
        f = self
        while f is not None:
            if name in f.vars:
                return True
            f = f.parent
        return False

    def set(self, name, v):
        f = self
        while f is not None:
            if name in f.vars:
                f.vars[name] = v
                return
            f = f.parent
        self.vars[name] = v


RET, BRK, CONT = "ret", "brk", "cont"


class CyModule:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree, self.src = front_end(name, path)
        self.typedefs = {}
        self.externs = None
        self.consts = {}
        self._find_externs()

    # -- extern C

    def _find_externs(self):
        """C names used by the module that are declared 'extern'"""
        names = {}
        tds = {}
        funcs = {}
        from Cython.Compiler.Visitor import TreeVisitor

        mod = self

        class Vis(TreeVisitor):
            def visit_Node(self, node):
                self.visitchildren(node)
                e = getattr(node, "entry", None)
                t = getattr(node, "type", None)
                for ty in (t, ):
                    ty = strip_const(ty) if ty is not None else None
                    while ty is not None and getattr(ty, "is_ptr", False):
                        ty = strip_const(ty.base_type)
                    if ty is not None and getattr(ty, "is_typedef", False) and ty.typedef_name not in STD:
                        tds[ty.typedef_name] = ty
                if type(node).__name__ == "NameNode" and e is not None and not e.type.is_pyobject:
                    sc = getattr(e, "scope", None)
                    if e.type.is_cfunction:
                        if getattr(e, "func_cname", None) and mod.is_extern(e) and not e.name.startswith("__"):
                            funcs[e.name] = e
                    elif mod.is_extern(e) and e.type.is_int:
                        names[e.name] = e

        Vis().visit(self.tree)
        self.names, self.tds, self.cfuncs = names, tds, funcs

    def is_extern(self, e):
        return bool(getattr(e, "is_extern", False) or getattr(e, "visibility", "") == "extern") and \
            getattr(e, "scope", None) is not None and getattr(e.scope, "is_module_scope", False) and \
            self.scope_name(e.scope).startswith(("finalfusion", "libc"))

    @staticmethod
    def scope_name(s):
        return getattr(s, "qualified_name", "") or ""

    def link(self):
        """compile and read the extern C code (once per run)"""
        if self.externs is not None:
            return self.externs
        src = self.src
        inc = set()
        for root, _, fs in os.walk(os.path.join(src, "finalfusion")):
            for f in fs:
                if f.endswith((".pxd", ".pyx")):
                    with open(os.path.join(root, f), encoding="utf-8") as h:
                        inc.update(re.findall(r"extern from [\"'<]+([\w./]+)[\"'>]", h.read()))
        body = ["#include <stdint.h>", "#include <stddef.h>", "#include <stdlib.h>"]
        body += ['#include "%s"' % i for i in sorted(inc)]
        for n, e in self.names.items():
            body.append("unsigned long long vf_const_%s(void) { return (unsigned long long)(%s); }" % (n, e.cname))
        for n in self.tds:
            body.append("unsigned long long vf_size_%s(void) { return sizeof(%s); }" % (n, n))
            body.append("unsigned long long vf_sign_%s(void) { return ((%s)-1) < 0; }" % (n, n))
        for n, e in self.cfuncs.items():
            t = e.type
            decl, call = [], []
            for i, a in enumerate(t.args):
                at = strip_const(a.type)
                cty = "void *" if at.is_ptr else (self._c_name(at))
                decl.append("%s a%d" % (cty, i))
                call.append("a%d" % i)
            rt = self._c_name(strip_const(t.return_type))
            body.append("%s vf_fn_%s(%s) { return %s(%s); }" % (rt, n, ", ".join(decl) or "void", e.func_cname or
                                                                e.cname, ", ".join(call)))
        cfiles = []
        setup = os.path.join(os.path.dirname(os.path.abspath(src.rstrip("/"))), "setup.py")
        try:
            with open(setup, encoding="utf-8") as h:
                for f in re.findall(r"[\"'](src/[\w./]+\.c)[\"']", h.read()):
                    if "finalfusion" not in f:
                        cfiles.append(os.path.join(os.path.dirname(setup), f))
        except OSError:
            pass
        cfiles = sorted(set(p for p in cfiles if os.path.exists(p)))
        tmp = tempfile.mkdtemp(prefix="verifll")
        try:
            texts = llvm.compile_ir(src, cfiles, "\n".join(body) + "\n",
                                    [os.path.join(src, "fnv"), os.path.join(src, "include")], tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        m = llvm.Module("")
        for t in texts:
            m2 = llvm.Module(t)
            m.funcs.update(m2.funcs)
            m.globals.update(m2.globals)
        self.externs = m
        return m

    def _c_name(self, t):
        if getattr(t, "is_typedef", False):
            return t.typedef_name
        if getattr(t, "is_void", False):
            return "void"
        return t.empty_declaration_code()

    def prepare(self):
        """resolve typedef sizes and macro constants"""
        if not (self.names or self.tds or self.cfuncs):
            return
        m = self.link()
        for n in self.tds:
            size = z3.simplify(m.run("vf_size_" + n, [])).as_long()
            sign = z3.simplify(m.run("vf_sign_" + n, [])).as_long()
            self.typedefs[n] = CT(8 * size, bool(sign))
        for n in self.names:
            v = z3.simplify(m.run("vf_const_" + n, []))
            self.consts[n] = v.as_long()

    def call_extern(self, e, args):
        m = self.link()
        FUNCS_RUN.add("C:" + e.name)
        a2 = []
        for a, d in zip(args, e.type.args):
            if isinstance(a, Ptr):
                a2.append((a.buf, a.off))
            else:
                a2.append(low(a, ctype(d.type, self).w))
        r = m.run("vf_fn_" + e.name, a2)
        if r is None:
            return None
        return from_low(r, ctype(e.type.return_type, self))

    # -- module object

    def populate(self, pymod, world):
        return Interp(self, pymod, world).run_module()


PYBUILTIN = {n: getattr(builtins, n) for n in dir(builtins)}

_TYPE_PY = {"str": str, "bytes": bytes, "list": list, "dict": dict, "tuple": tuple, "set": set, "int": int,
            "float": float, "bool": bool, "unicode": str, "bytearray": bytearray, "frozenset": frozenset,
            "type": type, "long": int, "object": object, "slice": slice, "BaseException": BaseException}


def array_attr(name):
    """functions of cpython.array"""
    if name == "array":
        return CyArray
    if name in ("resize", "resize_smart"):
        return lambda a, k: a.resize(k)
    if name == "clone":
        def clone(a, k, zero):
            r = CyArray(a.typecode)
            r.resize(k)
            if zero:
                r.items = [0] * len(r.items)
            return r
        return clone
    if name == "copy":
        def copy(a):
            r = CyArray(a.typecode)
            r.items = list(a.items)
            return r
        return copy
    if name == "zero":
        def zero(a):
            a.items = [0] * len(a.items)
        return zero
    return None


class Interp:
    def __init__(self, mod, pymod, world):
        self.mod, self.pymod, self.world = mod, pymod, world
        self.globals = pymod.__dict__
        self.cglobals = {}
        self.cfuncs = {}
        self.classes = {}

    # ------------------------------------------------------------ module

    def run_module(self):
        fr = Frame()
        fr.vars = self.globals
        self.modframe = fr
        # declare cdef functions and C globals first
        self.declare(self.mod.tree.body)
        self.stat(self.mod.tree.body, fr)

    def declare(self, node):
        k = type(node).__name__
        if k in ("StatListNode", ):
            for s in node.stats:
                self.declare(s)
        elif k == "CompilerDirectivesNode":
            self.declare(node.body)
        elif k == "CFuncDefNode":
            self.cfuncs[node.entry.name] = self.make_cfunc(node)

    # ------------------------------------------------------------ types

    def ct(self, t):
        return ctype(t, self.mod)

    def coerce_py(self, v, t):
        """Python object -> value of Cython type t (as for arguments)"""
        t = strip_const(t)
        if t is None:
            return v
        if getattr(t, "is_pyobject", False):
            return self.type_test(v, t, True)
        if self.is_bint(t):
            return vcall.V.call(bool, v) if not isinstance(v, SymBool) else v
        if getattr(t, "is_unicode_char", False):
            if isinstance(v, (str, SymStr)):
                return vcall.v_ord(v)
            return to_c_int(v, CT(32, False))
        if getattr(t, "is_int", False):
            return to_c_int(v, self.ct(t))
        if getattr(t, "is_float", False):
            return vcall.v_float(v)
        if getattr(t, "is_ptr", False):
            if isinstance(v, (bytes, SymBytes, bytearray)):
                return Ptr(BytesBuf(bytes(v) if isinstance(v, bytearray) else v), 0,
                           self.ct(t.base_type) or CT(8, False))
            if v is None:
                raise TypeError("expected bytes, NoneType found")
            if isinstance(v, (str, SymStr)):
                raise TypeError("expected bytes, str found")
        raise Unsupported("coercion to %s" % t)

    def is_bint(self, t):
        return str(t) == "bint"

    def type_test(self, v, t, none_ok):
        if v is None:
            if none_ok:
                return v
            raise TypeError("Argument must not be None")
        if getattr(t, "is_builtin_type", False):
            n = t.name
            py = _TYPE_PY.get(n)
            if py is None or py is object:
                return v
            if py is type:
                return v
            if not vcall.v_isinstance(v, py):
                raise TypeError("Expected %s, got %s" % (n, type(v).__name__))
            return v
        if getattr(t, "is_extension_type", False):
            n = t.name
            if n == "array":
                if not isinstance(v, CyArray):
                    raise TypeError("Cannot convert to array.array")
                return v
            cls = self.classes.get(n)
            if cls is not None and not isinstance(v, cls):
                raise TypeError("Cannot convert %s to %s" % (type(v).__name__, n))
            return v
        return v

    def default_of(self, t):
        t = strip_const(t)
        if getattr(t, "is_pyobject", False):
            return None
        if getattr(t, "is_int", False):
            return 0
        if getattr(t, "is_float", False):
            return 0.0
        return None

    # --------------------------------------------------------- functions

    def bind(self, name, params, args, kw, star, starstar):
        """params: list of (name, type, default thunk or None, kwonly, none_ok)"""
        out = {}
        pos = [p for p in params if not p[3]]
        if len(args) > len(pos) and star is None:
            raise TypeError("%s() takes at most %d positional arguments (%d given)" % (name, len(pos), len(args)))
        kw = dict(kw)
        for i, p in enumerate(params):
            n = p[0]
            if not p[3] and i < len(args):
                if n in kw:
                    raise TypeError("%s() got multiple values for argument %r" % (name, n))
                v = args[i]
            elif n in kw:
                v = kw.pop(n)
            elif p[2] is not None:
                out[n] = p[2]()
                continue
            else:
                raise TypeError("%s() missing required argument %r" % (name, n))
            if p[4] is False and v is None:
                raise TypeError("Argument %r must not be None" % n)
            out[n] = self.coerce_py(v, p[1])
        if star is not None:
            out[star] = tuple(args[len(pos):])
        if starstar is not None:
            out[starstar] = vcall.SymDict(kw)
        elif kw:
            raise TypeError("%s() got an unexpected keyword argument %r" % (name, next(iter(kw))))
        return out

    def params_of(self, node):
        out = []
        for a in node.args:
            n = a.name or a.declarator.name
            d = None
            if a.default is not None:
                fr = self.modframe
                d = (lambda dn=a.default: self.ev(dn, self.modframe))
            none_ok = True
            if getattr(a, "not_none", False):
                none_ok = False
            out.append((n, a.type, d, bool(getattr(a, "kw_only", 0)), none_ok))
        return out

    def make_pyfunc(self, node, qual=""):
        """DefNode or cpdef CFuncDefNode -> Python function"""
        it = self
        is_c = type(node).__name__ == "CFuncDefNode"
        name = node.entry.name if is_c else node.name
        params = []
        star = starstar = None
        if is_c:
            src = node.py_func if getattr(node, "py_func", None) is not None else node
            params = self.params_of(node)
        else:
            params = self.params_of(node)
            star = node.star_arg.name if node.star_arg else None
            starstar = node.starstar_arg.name if node.starstar_arg else None
        tag = "%s:%s%s" % (self.mod.name, qual, name)
        rtype = None
        if is_c:
            rtype = node.return_type
        # special methods with a C signature get no conversion of self
        body = node.body
        locals_ = self.local_defaults(node)

        def f(*args, **kw):
            FUNCS_RUN.add(tag)
            fr = Frame()
            fr.vars.update(locals_)
            fr.vars.update(it.bind(name, params, args, kw, star, starstar))
            r = it.body(body, fr)
            return it.ret_py(r, rtype)

        f.__name__ = name
        f.__qualname__ = qual + name
        f.__module__ = self.mod.name
        return f

    def ret_py(self, r, rtype):
        if rtype is not None and not rtype.is_pyobject:
            if self.is_bint(rtype):
                return r != 0 if not isinstance(r, (bool, SymBool)) else r
        return r

    def local_defaults(self, node):
        """C locals start undefined; reading one before assignment gives an
        unspecified value"""
        return {}

    def make_cfunc(self, node):
        it = self
        args = [(a.name or a.declarator.name, a.type, a.default) for a in node.args]
        tag = "%s:%s" % (self.mod.name, node.entry.name)

        def f(*vals):
            FUNCS_RUN.add(tag)
            fr = Frame()
            for i, (n, t, d) in enumerate(args):
                if i < len(vals):
                    v = vals[i]
                    c = it.maybe_ct(t)
                    fr.vars[n] = wrap(v, c) if c is not None and isinstance(v, (int, SymInt, SymBool)) else v
                else:
                    fr.vars[n] = it.ev(d, it.modframe)
            r = it.body(node.body, fr)
            c = it.maybe_ct(node.return_type)
            if c is not None:
                return wrap(r if r is not None else 0, c)
            return r

        f._cfunc = True
        return f

    def maybe_ct(self, t):
        t = strip_const(t) if t is not None else None
        if t is None or not getattr(t, "is_int", False):
            return None
        if self.is_bint(t):
            return None
        return self.ct(t)

    def body(self, body, fr):
        r = self.stat(body, fr)
        if r is RET:
            return fr.ret
        return None

    # ------------------------------------------------------------ classes

    def make_class(self, node):
        name = node.class_name
        bases = []
        it = self
        scope = node.entry.type.scope
        attrs = {}
        for e in scope.var_entries:
            attrs[e.name] = (e.type, getattr(e, "visibility", "private"))
        base = object
        bt = node.entry.type.base_type
        if bt is not None:
            base = self.classes.get(bt.name) or object
        ns = {"__module__": self.mod.name, "_cy_class": True}

        def new(cls, *a, **k):
            o = object.__new__(cls)
            d = {}
            for c in reversed(cls.__mro__):
                for n, (t, _) in getattr(c, "_cy_attrs", {}).items() if "_cy_attrs" in c.__dict__ else ():
                    d[n] = it.default_of(t)
            object.__setattr__(o, "_cyd", d)
            cinit = getattr(cls, "__cinit__", None)
            if cinit is not None:
                cinit(o, *a, **k)
            return o

        ns["__new__"] = new
        ns["_cy_attrs"] = attrs
        for n, (t, vis) in attrs.items():
            if vis in ("public", "readonly"):
                def g(self, n=n):
                    return self._cyd[n]
                if vis == "public":
                    def s(self, v, n=n, t=t):
                        self._cyd[n] = it.coerce_py(v, t)
                    ns[n] = property(g, s)
                else:
                    ns[n] = property(g)
        self._class_body(node.body, ns, name)
        if "__eq__" in ns and "__hash__" not in ns:
            ns["__hash__"] = None
        cls = type(name, (base, ), ns)
        self.classes[name] = cls
        return cls

    def _class_body(self, node, ns, cname):
        k = type(node).__name__
        if node is None:
            return
        if k == "StatListNode":
            for s in node.stats:
                self._class_body(s, ns, cname)
        elif k == "CompilerDirectivesNode":
            self._class_body(node.body, ns, cname)
        elif k == "DefNode":
            if node.name.startswith(("__reduce_cython__", "__setstate_cython__", "__pyx_unpickle")):
                return
            f = self.make_pyfunc(node, cname + ".")
            if node.name in ns and getattr(ns[node.name], "_from_cpdef", False):
                return
            if node.is_staticmethod:
                f = staticmethod(f)
            elif node.is_classmethod:
                f = classmethod(f)
            ns[node.name] = f
        elif k == "CFuncDefNode":
            f = self.make_pyfunc(node, cname + ".")
            f._from_cpdef = True
            if node.overridable:
                ns[node.entry.name] = f
            ns.setdefault("_cy_methods", {})[node.entry.name] = self.make_cfunc(node)
        elif k == "PropertyNode":
            g = s = None
            for st in (node.body.stats if hasattr(node.body, "stats") else [node.body]):
                if type(st).__name__ == "DefNode":
                    if st.name == "__get__":
                        g = self.make_pyfunc(st, cname + "." + node.name + ".")
                    elif st.name == "__set__":
                        s = self.make_pyfunc(st, cname + "." + node.name + ".")
            ns[node.name] = property(g, s)
        elif k in ("SingleAssignmentNode", ):
            if type(node.rhs).__name__ in ("PyCFunctionNode", ):
                return
            ns[node.lhs.name] = self.ev(node.rhs, self.modframe)
        elif k in ("ExprStatNode", "PassStatNode", "CVarDefNode", "CEnumDefNode"):
            return
        else:
            raise Unsupported("class body " + k)

    # --------------------------------------------------------- statements

    def stat(self, node, fr):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("cython statement " + type(node).__name__)
        return m(node, fr)

    def s_StatListNode(self, node, fr):
        for s in node.stats:
            r = self.stat(s, fr)
            if r is not None:
                return r
        return None

    def s_CompilerDirectivesNode(self, node, fr):
        return self.stat(node.body, fr)

    def s_PassStatNode(self, node, fr):
        return None

    s_CDefExternNode = s_CImportStatNode = s_FromCImportStatNode = s_CVarDefNode = s_PassStatNode
    s_CTypeDefNode = s_CEnumDefNode = s_CStructOrUnionDefNode = s_GlobalNode = s_PassStatNode

    def s_CFuncDefNode(self, node, fr):
        if node.overridable and not node.entry.scope.is_c_class_scope:
            self.globals[node.entry.name] = self.make_pyfunc(node)
        return None

    def s_DefNode(self, node, fr):
        f = self.make_pyfunc(node)
        fr.set(node.name, f)
        return None

    def s_CClassDefNode(self, node, fr):
        cls = self.make_class(node)
        self.globals[node.class_name] = cls
        return None

    def s_FromImportStatNode(self, node, fr):
        mn = node.module.module_name.value
        level = node.module.level or 0
        m = self.world.imp(str(mn), self.globals, None, tuple(n for n, _ in node.items), max(level, 0))
        for n, target in node.items:
            try:
                v = getattr(m, n)
            except AttributeError:
                raise ImportError("cannot import name %r" % n)
            self.assign(target, v, fr)
        return None

    def s_ExprStatNode(self, node, fr):
        if type(node.expr).__name__ == "PyCFunctionNode":
            return None
        self.ev(node.expr, fr)
        return None

    def s_SingleAssignmentNode(self, node, fr):
        if type(node.rhs).__name__ in ("PyCFunctionNode", ):
            return None
        if type(node.rhs).__name__ == "ImportNode":
            mn = str(node.rhs.module_name.value)
            self.assign(node.lhs, self.world.imp(mn, self.globals, None, (), 0), fr)
            return None
        self.assign(node.lhs, self.ev(node.rhs, fr), fr)
        return None

    def s_CascadedAssignmentNode(self, node, fr):
        v = self.ev(node.rhs, fr)
        fr.temps[id(node.rhs)] = v
        for cv in getattr(node, "coerced_values", []) or []:
            fr.temps[id(cv)] = v
        lhs = node.lhs_list
        for l in lhs:
            x = v
            t = getattr(l, "type", None)
            if t is not None and not t.is_pyobject and getattr(node.rhs, "type", t).is_pyobject:
                x = self.coerce_py(v, t)
            self.assign(l, x, fr)
        return None

    def s_ParallelAssignmentNode(self, node, fr):
        vals = []
        for s in node.stats:
            vals.append(self.ev(s.rhs, fr))
        for s, v in zip(node.stats, vals):
            self.assign(s.lhs, v, fr)
        return None

    def s_InPlaceAssignmentNode(self, node, fr):
        l = node.lhs
        a = self.ev(l, fr)
        b = self.ev(node.rhs, fr)
        op = node.operator
        if l.type.is_pyobject:
            import operator as O
            if op == "+":
                v = O.iadd(a, b)
            elif op == "%":
                v = V.mod(a, b)
            else:
                v = {"-": O.isub, "*": O.imul, "//": O.ifloordiv, "/": O.itruediv, "&": O.iand, "|": O.ior,
                     "^": O.ixor, "<<": O.ilshift, ">>": O.irshift, "**": O.ipow}[op](a, b)
        else:
            v = self.c_binop(op, a, b, l.type, node.rhs.type, None, node)
        self.assign(l, v, fr)
        return None

    def s_IfStatNode(self, node, fr):
        for c in node.if_clauses:
            if self.truth(self.ev(c.condition, fr)):
                return self.stat(c.body, fr)
        if node.else_clause is not None:
            return self.stat(node.else_clause, fr)
        return None

    def truth(self, v):
        if isinstance(v, Ptr):
            return True
        if isinstance(v, (bool, int)):
            return bool(v)
        return bool(vcall.V.call(bool, v))

    def s_WhileStatNode(self, node, fr):
        n = 0
        while node.condition is None or self.truth(self.ev(node.condition, fr)):
            r = self.stat(node.body, fr)
            if r is BRK:
                return None
            if r is RET:
                return r
            n += 1
            if n > 600:
                raise BoundExceeded("while loop")
        if node.else_clause is not None:
            return self.stat(node.else_clause, fr)
        return None

    def s_ForInStatNode(self, node, fr):
        seqn = node.iterator.sequence
        seq = self.ev(seqn, fr)
        return self.for_loop(node, seq, fr, seqn)

    def for_loop(self, node, seq, fr, seqn=None):
        if isinstance(seq, Ptr):
            raise Unsupported("iteration over a pointer")
        it = iter(seq)
        n = 0
        if seqn is not None and type(seqn).__name__ == "NameNode" and False:
            pass
        for x in it:
            n += 1
            if n > 3000:
                raise BoundExceeded("for loop")
            self.assign_item(node, x, fr)
            r = self.stat(node.body, fr)
            if r is BRK:
                return None
            if r is RET:
                return r
        if node.else_clause is not None:
            return self.stat(node.else_clause, fr)
        return None

    def assign_item(self, node, x, fr):
        t = node.target
        tt = getattr(t, "type", None)
        if tt is not None and not tt.is_pyobject and not (isinstance(x, (int, SymInt)) and not isinstance(x, bool)):
            x = self.coerce_py(x, tt)
        elif tt is not None and not tt.is_pyobject:
            item_t = getattr(node.item, "type", None)
            if item_t is not None and getattr(node.item.type, "is_pyobject", False) is False and \
                    type(node.item).__name__ == "NextNode":
                x = wrap(x, self.ct(tt))
            else:
                x = self.coerce_py(x, tt)
        self.assign(t, x, fr)

    def s_ForFromStatNode(self, node, fr):
        a = self.ev(node.bound1, fr)
        b = self.ev(node.bound2, fr)
        step = self.ev(node.step, fr) if node.step is not None else 1
        r1, r2 = node.relation1, node.relation2
        desc = ">" in r1
        i = a
        if r1 == "<":
            i = i + 1
        elif r1 == ">":
            i = i - 1
        n = 0
        import operator as O
        cmp_ = {"<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge}[r2]
        ct = self.maybe_ct(node.target.type)
        while bool(cmp_(i, b)):
            self.assign(node.target, wrap(i, ct) if ct else i, fr)
            r = self.stat(node.body, fr)
            if r is BRK:
                return None
            if r is RET:
                return r
            i = i - step if desc else i + step
            n += 1
            if n > 600:
                raise BoundExceeded("for loop")
        if node.else_clause is not None:
            return self.stat(node.else_clause, fr)
        return None

    def s_ReturnStatNode(self, node, fr):
        fr.ret = self.ev(node.value, fr) if node.value is not None else None
        return RET

    def s_BreakStatNode(self, node, fr):
        return BRK

    def s_ContinueStatNode(self, node, fr):
        return CONT if False else self._cont()

    def _cont(self):
        return CONT

    def s_RaiseStatNode(self, node, fr):
        if node.exc_type is None:
            raise
        e = self.ev(node.exc_type, fr)
        if node.exc_value is not None:
            a = self.ev(node.exc_value, fr)
            e = e(*(a if isinstance(a, tuple) else (a, )))
        if node.cause is not None:
            raise e from self.ev(node.cause, fr)
        raise e

    def s_AssertStatNode(self, node, fr):
        if not self.truth(self.ev(node.condition, fr)):
            self.stat(node.exception, fr)
        return None

    def s_DelStatNode(self, node, fr):
        for a in node.args:
            k = type(a).__name__
            if k == "IndexNode":
                del self.ev(a.base, fr)[self.ev(a.index, fr)]
            elif k == "NameNode":
                fr.vars.pop(a.name, None)
            else:
                raise Unsupported("del")
        return None

    def s_TryExceptStatNode(self, node, fr):
        try:
            r = self.stat(node.body, fr)
        except Ctl:
            raise
        except BaseException as ex:
            for c in node.except_clauses:
                if c.pattern:
                    ts = tuple(self.ev(p, fr) for p in c.pattern)
                    flat = []
                    vcall._expand(ts, flat)
                    if not isinstance(ex, tuple(flat)):
                        continue
                if c.target is not None:
                    self.assign(c.target, ex, fr)
                return self.stat(c.body, fr)
            raise
        if r is not None:
            return r
        if node.else_clause is not None:
            return self.stat(node.else_clause, fr)
        return None

    def s_TryFinallyStatNode(self, node, fr):
        try:
            r = self.stat(node.body, fr)
        except Ctl:
            raise
        except BaseException:
            r2 = self.stat(node.finally_except_clause or node.finally_clause, fr)
            if r2 is not None:
                return r2
            raise
        r2 = self.stat(node.finally_clause, fr)
        return r2 if r2 is not None else r

    def s_CriticalSectionStatNode(self, node, fr):
        return self.stat(node.body, fr)

    s_GILStatNode = s_CriticalSectionStatNode

    def s_CriticalSectionExitNode(self, node, fr):
        return None

    s_GILExitNode = s_CriticalSectionExitNode

    def s_OverrideCheckNode(self, node, fr):
        return None

    def s_DictComprehensionAppendNode(self, node, fr):
        k = self.ev(node.dict_item.key, fr)
        v = self.ev(node.dict_item.value, fr)
        self.find_sink(fr)[k] = v
        return None

    def s_ComprehensionAppendNode(self, node, fr):
        s = self.find_sink(fr)
        v = self.ev(node.expr, fr)
        if isinstance(s, set):
            s.add(v)
        else:
            s.append(v)
        return None

    e_DictComprehensionAppendNode = s_DictComprehensionAppendNode
    e_ComprehensionAppendNode = s_ComprehensionAppendNode

    def find_sink(self, fr):
        while fr is not None:
            if fr.sink is not None:
                return fr.sink
            fr = fr.parent
        raise Unsupported("comprehension without sink")

    # -------------------------------------------------------- assignment

    def assign(self, t, v, fr):
        k = type(t).__name__
        if k == "NameNode":
            c = self.maybe_ct(t.type)
            if c is not None and isinstance(v, (int, SymInt, SymBool)):
                v = wrap(v, c)
            e = t.entry
            if self.is_cglobal(e):
                self.cglobals[t.name] = v
            else:
                fr.set(t.name, v)
            return
        if k == "AttributeNode":
            o = self.ev(t.obj, fr)
            if self.is_cattr(t):
                c = self.maybe_ct(t.type)
                if c is not None:
                    v = wrap(v, c)
                o._cyd[t.attribute] = v
            else:
                setattr(o, t.attribute, v)
            return
        if k == "IndexNode":
            b = self.ev(t.base, fr)
            i = self.ev(t.index, fr)
            if isinstance(b, Ptr):
                b.set(i, v)
            else:
                b[i] = v
            return
        if k == "SliceIndexNode":
            b = self.ev(t.base, fr)
            b[slice(self.ev(t.start, fr) if t.start else None, self.ev(t.stop, fr) if t.stop else None)] = v
            return
        if k in ("TupleNode", "ListNode"):
            vals = list(v)
            if len(vals) != len(t.args):
                raise ValueError("not enough values to unpack" if len(vals) < len(t.args) else
                                 "too many values to unpack")
            for a, x in zip(t.args, vals):
                at = getattr(a, "type", None)
                if at is not None and not at.is_pyobject:
                    x = self.coerce_py(x, at)
                self.assign(a, x, fr)
            return
        if k in ("CoerceToPyTypeNode", "CoerceFromPyTypeNode", "PyTypeTestNode", "CoerceToTempNode"):
            return self.assign(t.arg, v, fr)
        raise Unsupported("assignment to " + k)

    def is_cglobal(self, e):
        return e is not None and not e.type.is_pyobject and getattr(e.scope, "is_module_scope", False)

    def is_cattr(self, n):
        e = n.entry
        if getattr(n, "is_py_attr", False):
            return False
        t = n.obj.type
        return getattr(t, "is_extension_type", False) and e is not None and e.is_variable

    # ------------------------------------------------------- expressions

    def ev(self, node, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("cython expression " + type(node).__name__)
        return m(node, fr)

    def e_IntNode(self, node, fr):
        s = str(node.value)
        try:
            return int(s, 0)
        except ValueError:
            return int(s.rstrip("uUlL"), 0) if not re.fullmatch(r"0\d+", s) else int(s, 8)

    def e_FloatNode(self, node, fr):
        return float(node.value)

    def e_BoolNode(self, node, fr):
        return bool(node.value) if not isinstance(node.value, str) else node.value == "True"

    def e_NoneNode(self, node, fr):
        return None

    def e_UnicodeNode(self, node, fr):
        return str(node.value)

    e_IdentifierStringNode = e_StringNode = e_UnicodeNode

    def e_BytesNode(self, node, fr):
        v = node.value
        b = v if isinstance(v, bytes) else v.byteencode() if hasattr(v, "byteencode") else str(v).encode("latin-1")
        b = bytes(b)
        if getattr(node.type, "is_ptr", False):
            return Ptr(BytesBuf(b), 0, CT(8, True))
        return b

    def e_CharNode(self, node, fr):
        return ord(str(node.value))

    def e_EllipsisNode(self, node, fr):
        return Ellipsis

    def e_NullNode(self, node, fr):
        return None

    def e_NameNode(self, node, fr):
        n = node.name
        e = node.entry
        f = fr
        while f is not None:
            if n in f.vars and f is not self.modframe:
                return f.vars[n]
            f = f.parent
        if e is not None and not e.type.is_pyobject and e.type.is_cfunction:
            c = self.cfuncs.get(n)
            if c is not None:
                return c
            if n in self.mod.cfuncs:
                return lambda *a: self.mod.call_extern(e, a)
            return self.builtin_c(n, e)
        if self.is_cglobal(e):
            if n in self.cglobals:
                return self.cglobals[n]
            if n in self.mod.consts:
                return self.mod.consts[n]
            if self.mod.is_extern(e):
                self.mod.prepare()
                if n in self.mod.consts:
                    return wrap(self.mod.consts[n], self.ct(e.type))
            if getattr(e, "is_const", False) and getattr(e, "value_node", None) is not None:
                return self.ev(e.value_node, fr)
            return self.default_of(e.type)
        if e is not None and e.scope is not None and getattr(e.scope, "is_local_scope", False) and \
                getattr(e, "is_local", False):
            t = strip_const(e.type)
            if getattr(t, "is_int", False):
                c = self.ct(t)
                ctx().imprecise.append("uninitialised C variable " + n)
                return from_low(z3.BitVec(ctx().fresh("uninit"), c.w), c)
            raise UnboundLocalError("local variable %r referenced before assignment" % n)
        if n in self.globals:
            return self.globals[n]
        if n in self.classes:
            return self.classes[n]
        if n in PYBUILTIN:
            return PYBUILTIN[n]
        if n == "array" or (e is not None and str(getattr(e.type, "name", "")) == "array"):
            return CyArray
        raise NameError("name %r is not defined" % n)

    def builtin_c(self, n, e):
        if n in PYBUILTIN:
            f = PYBUILTIN[n]
            if n == "ord":
                return lambda c: c if isinstance(c, (int, SymInt)) else vcall.v_ord(c)
            return lambda *a, **k: V.call(f, *a, **k)
        q = str(getattr(getattr(e, "scope", None), "qualified_name", ""))
        if n == "data" and q.startswith("cpython.array"):
            return lambda a: a
        if q.startswith("cpython.array"):
            r = array_attr(n)
            if r is not None:
                return r
        raise Unsupported("C function " + n)

    def e_AttributeNode(self, node, fr):
        name = node.attribute
        ot = getattr(node.obj, "type", None)
        # module attribute of a cimported module (array.array, array.resize)
        if type(node.obj).__name__ == "NameNode" and getattr(node.obj.entry, "as_module", None) is not None:
            mn = node.obj.entry.as_module.qualified_name
            if mn.endswith("array"):
                r = array_attr(name)
                if r is not None:
                    return r
            raise Unsupported("cimported attribute %s.%s" % (mn, name))
        o = self.ev(node.obj, fr)
        if isinstance(o, CyArray) and name == "data":
            return o
        if isinstance(o, CyArray) and name.startswith("as_"):
            cts = {"as_uints": (32, False), "as_ints": (32, True), "as_uchars": (8, False), "as_chars": (8, True),
                   "as_ushorts": (16, False), "as_shorts": (16, True), "as_ulongs": (64, False),
                   "as_longs": (64, True), "as_ulonglongs": (64, False), "as_longlongs": (64, True)}
            if name in cts:
                return Ptr(o, 0, CT(*cts[name]))
            raise Unsupported("array." + name)
        if o is None:
            raise AttributeError("'NoneType' object has no attribute %r" % name)
        if hasattr(type(o), "_cy_class"):
            if not getattr(node, "is_py_attr", False) and name in o._cyd:
                return o._cyd[name]
            cm = None
            for c in type(o).__mro__:
                cm = c.__dict__.get("_cy_methods", {}).get(name)
                if cm is not None:
                    break
            if cm is not None and not node.is_py_attr and node.type is not None and node.type.is_cfunction:
                return lambda *a: cm(*a)
        if isinstance(o, str) and name in ("join", "format", "replace", "split", "startswith", "endswith", "find",
                                           "index", "strip", "count"):
            return lambda *a, **k: V.call(getattr(o, name), *a, **k)
        return getattr(o, name)

    # -- calls

    def e_SimpleCallNode(self, node, fr):
        fn = node.function
        fname = getattr(fn, "name", None) or getattr(fn, "attribute", None)
        ftype = getattr(fn, "type", None)
        argnodes = node.args if getattr(node, "args", None) is not None else None
        if argnodes is None:
            argnodes = node.arg_tuple.args if type(node.arg_tuple).__name__ == "TupleNode" else None
            if argnodes is None:
                args = list(self.ev(node.arg_tuple, fr))
        is_c = ftype is not None and getattr(ftype, "is_cfunction", False) or (
            ftype is not None and getattr(ftype, "is_ptr", False) and ftype.base_type.is_cfunction)
        f = self.ev(fn, fr)
        if argnodes is not None:
            args = [self.ev(a, fr) for a in argnodes]
        if is_c and type(fn).__name__ == "AttributeNode":
            # C method: self is passed as first argument already
            o = self.ev(fn.obj, fr)
            if not hasattr(type(o), "_cy_class"):
                if getattr(node, "self", None) is not None and args and type(node.args[0]).__name__ in (
                        "CMethodSelfCloneNode", "CloneNode"):
                    return V.call(f, *args[1:])
            elif args and args[0] is o and getattr(f, "__self__", None) is o:
                return V.call(f, *args[1:])
        r = V.call(f, *args)
        return r

    def e_GeneralCallNode(self, node, fr):
        f = self.ev(node.function, fr)
        args = self.ev(node.positional_args, fr)
        kw = self.ev(node.keyword_args, fr) if node.keyword_args is not None else {}
        return V.call(f, *args, **{str(k): kw[k] for k in kw})

    def e_MergedDictNode(self, node, fr):
        d = vcall.SymDict()
        for a in node.keyword_args:
            d.update(self.ev(a, fr))
        return d

    def e_CachedBuiltinMethodCallNode(self, node, fr):
        o = self.ev(node.obj, fr)
        return V.call(getattr(o, node.method_name), *[self.ev(a, fr) for a in node.args])

    def e_PythonCapiCallNode(self, node, fr):
        raise Unsupported("C-API call")

    # -- coercions

    def e_CoerceToPyTypeNode(self, node, fr):
        v = self.ev(node.arg, fr)
        t = strip_const(node.arg.type)
        if self.is_bint(t):
            return v if isinstance(v, (bool, SymBool)) else v != 0
        if getattr(t, "is_unicode_char", False):
            if str(node.type.name if hasattr(node.type, "name") else "") == "int":
                return v
            return vcall.v_chr(v)
        if isinstance(v, Ptr):
            raise Unsupported("C string to bytes")
        return v

    def e_CoerceFromPyTypeNode(self, node, fr):
        return self.coerce_py(self.ev(node.arg, fr), node.type)

    def e_CoerceToBooleanNode(self, node, fr):
        v = self.ev(node.arg, fr)
        if isinstance(v, (bool, SymBool)):
            return v
        if isinstance(v, SymInt):
            return v != 0
        return V.call(bool, v)

    def e_CoerceIntToBytesNode(self, node, fr):
        return bytes([self.ev(node.arg, fr)])

    def _pass(self, node, fr):
        return self.ev(node.arg, fr)

    e_CoerceToTempNode = e_CoercePyTypeNode = _pass
    e_CoerceToComplexNode = None

    def e_ProxyNode(self, node, fr):
        v = self.ev(node.arg, fr)
        fr.temps[id(node)] = v
        return v

    def e_CloneNode(self, node, fr):
        if id(node.arg) in fr.temps:
            return fr.temps[id(node.arg)]
        return self.ev(node.arg, fr)

    def e_CMethodSelfCloneNode(self, node, fr):
        return self.ev(node.arg, fr)

    def e_BoolBinopResultNode(self, node, fr):
        v = self.ev(node.arg, fr)
        fr.temps[id(node.arg)] = v
        if type(node.arg).__name__ == "ProxyNode":
            fr.temps[id(node.arg.arg)] = v
        fr.temps[id(node)] = v
        return v

    def bool_val(self, node, fr):
        """converted value of a BoolBinopResultNode after its test"""
        return self.ev(node.value, fr)

    def e_BoolBinopNode(self, node, fr):
        a = self.boolop(node, fr)
        return a

    def boolop(self, node, fr):
        def operand(n, last):
            if type(n).__name__ == "BoolBinopNode":
                return self.boolop(n, fr), None
            if type(n).__name__ == "BoolBinopResultNode":
                raw = self.ev(n, fr)
                return raw, n
            return self.ev(n, fr), None

        a, an = operand(node.operand1, False)
        t = self.truth(a)
        if (node.operator == "and" and t) or (node.operator == "or" and not t):
            b, bn = operand(node.operand2, True)
            return self.bool_val(bn, fr) if bn is not None else b
        return self.bool_val(an, fr) if an is not None else a

    def e_NoneCheckNode(self, node, fr):
        v = self.ev(node.arg, fr)
        if v is None:
            raise getattr(builtins, node.exception_type_cname[6:] if node.exception_type_cname.startswith("PyExc_")
                          else "TypeError")(node.exception_message)
        return v

    def e_PyTypeTestNode(self, node, fr):
        v = self.ev(node.arg, fr)
        return self.type_test(v, node.type, not getattr(node, "notnone", False))

    def e_TypecastNode(self, node, fr):
        v = self.ev(node.operand, fr)
        t = strip_const(node.type)
        if getattr(t, "is_ptr", False):
            ct = self.maybe_ct(t.base_type)
            if isinstance(v, Ptr):
                return Ptr(v.buf, v.off, ct)
            return self.coerce_py(v, t)
        if getattr(t, "is_pyobject", False):
            if getattr(node, "typecheck", False):
                return self.type_test(v, t, True)
            return v
        if self.is_bint(t):
            return v if isinstance(v, (bool, SymBool)) else v != 0
        if getattr(t, "is_int", False):
            if getattr(node.operand.type, "is_pyobject", False):
                v = self.coerce_py(v, t)
            return wrap(v, self.ct(t))
        if getattr(t, "is_float", False):
            return vcall.v_float(v)
        raise Unsupported("cast to %s" % t)

    def e_AmpersandNode(self, node, fr):
        o = node.operand
        if type(o).__name__ == "NameNode":
            ct = self.maybe_ct(o.type)
            if ct is None:
                raise Unsupported("address of %s" % o.type)
            return Ptr(VarBuf(fr, o.name, ct), 0, ct)
        if type(o).__name__ == "IndexNode":
            b = self.ev(o.base, fr)
            if isinstance(b, Ptr):
                return b + self.ev(o.index, fr)
        raise Unsupported("address-of")

    def e_DereferenceNode(self, node, fr):
        return self.ev(node.operand, fr).get(0)

    # -- operators

    def c_binop(self, op, a, b, ta, tb, tr, node):
        """C arithmetic on ints of Cython types ta, tb, result type tr"""
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr) and not isinstance(a, Ptr):
                a, b = b, a
            return a + b if op == "+" else a - b
        ta, tb = strip_const(ta), strip_const(tb)
        if getattr(ta, "is_float", False) or getattr(tb, "is_float", False):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return vcall.v_float(a) / b
            raise Unsupported("float op " + op)
        ca = self.maybe_ct(ta) or CT(32, True)
        cb = self.maybe_ct(tb) or CT(32, True)
        if op in ("<<", ">>"):
            c = promote1(ca)
        else:
            c = promote(ca, cb)
        if tr is not None:
            ctr = self.maybe_ct(tr)
            # Cython's node type: operands were coerced to it where it is wider
            if ctr is not None and ctr.w > c.w:
                c = ctr
        x, y = wrap(a, c), wrap(b, c) if op not in ("<<", ">>") else wrap(b, cb)
        if op in ("//", "/", "%"):
            return self.c_div(op, x, y, c, node)
        if op == "**":
            raise Unsupported("C power")
        if not (isinstance(x, SymInt) or isinstance(y, SymInt)):
            x, y = int(x), int(y)
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                 "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
            return wrap(v, c)
        intf = (isinstance(x, SymInt) and x.bv is None) or (isinstance(y, SymInt) and y.bv is None)
        if intf and op in ("+", "-", "*"):
            return wrap({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op](), c)
        if intf and op == "&" and (isinstance(x, int) or isinstance(y, int)):
            return wrap(x & y, c)
        p, q = low(x, c.w), low(y, c.w)
        if op == "+":
            r = llvm.arith("add", p, q)
        elif op == "-":
            r = llvm.arith("sub", p, q)
        elif op == "*":
            r = llvm.arith("mul", p, q)
        elif op == "<<":
            r = llvm.arith("shl", p, q)
        elif op == ">>":
            r = llvm.arith("ashr" if c.signed else "lshr", p, q)
        elif op == "&":
            r = llvm.arith("and", p, q)
        elif op == "|":
            r = llvm.arith("or", p, q)
        elif op == "^":
            r = llvm.arith("xor", p, q)
        else:
            raise Unsupported("C op " + op)
        return from_low(r, c)

    def c_div(self, op, x, y, c, node):
        cdiv = bool(getattr(node, "cdivision", None))
        d = getattr(self, "_cdiv", None)
        if not (isinstance(x, SymInt) or isinstance(y, SymInt)):
            if y == 0:
                if cdiv:
                    ctx().imprecise.append("C division by zero")
                raise ZeroDivisionError("integer division or modulo by zero")
            if cdiv:
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y >= 0) else -q
                return wrap(q if op != "%" else x - q * y, c)
            return wrap(x // y if op != "%" else x % y, c)
        if bool(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if not c.signed and not (isinstance(x, SymInt) and x.bv is None) and not (
                isinstance(y, SymInt) and y.bv is None):
            p, q = low(x, c.w), low(y, c.w)
            return from_low(core.udivrem(p, q, op == "%"), c)
        if cdiv and c.signed and not (isinstance(x, SymInt) and x.bv is None):
            p, q = low(x, c.w), low(y, c.w)
            return from_low(z3.SRem(p, q) if op == "%" else p / q, c)
        return wrap(x % y if op == "%" else x // y, c)

    def binop(self, node, fr, op):
        a = self.ev(node.operand1, fr)
        b = self.ev(node.operand2, fr)
        t = strip_const(node.type)
        if not getattr(t, "is_pyobject", False):
            return self.c_binop(op, a, b, node.operand1.type, node.operand2.type, t, node)
        import operator as O
        if op == "%":
            return V.mod(a, b)
        return {"+": O.add, "-": O.sub, "*": O.mul, "//": O.floordiv, "/": O.truediv, "&": O.and_, "|": O.or_,
                "^": O.xor, "<<": O.lshift, ">>": O.rshift, "**": O.pow}[op](a, b)

    def e_AddNode(self, node, fr):
        return self.binop(node, fr, "+")

    def e_SubNode(self, node, fr):
        return self.binop(node, fr, "-")

    def e_MulNode(self, node, fr):
        return self.binop(node, fr, "*")

    def e_ModNode(self, node, fr):
        return self.binop(node, fr, "%")

    def e_DivNode(self, node, fr):
        return self.binop(node, fr, node.operator)

    def e_PowNode(self, node, fr):
        return self.binop(node, fr, "**")

    def e_IntBinopNode(self, node, fr):
        return self.binop(node, fr, node.operator)

    e_BitwiseOrNode = e_NumBinopNode = e_IntBinopNode

    def e_UnaryMinusNode(self, node, fr):
        v = self.ev(node.operand, fr)
        c = self.maybe_ct(node.type)
        r = -v
        return wrap(r, c) if c is not None else r

    def e_UnaryPlusNode(self, node, fr):
        return self.ev(node.operand, fr)

    def e_TildeNode(self, node, fr):
        v = self.ev(node.operand, fr)
        c = self.maybe_ct(node.type)
        r = ~v if not isinstance(v, SymInt) or v.bv is None else from_low(~low(v, c.w), c)
        return wrap(r, c) if c is not None else r

    def e_NotNode(self, node, fr):
        v = self.ev(node.operand, fr)
        if isinstance(v, (SymBool, SymInt)):
            return core.Not(v if isinstance(v, SymBool) else v != 0)
        return not self.truth(v)

    def e_PrimaryCmpNode(self, node, fr):
        a = self.ev(node.operand1, fr)
        b = self.ev(node.operand2, fr)
        fr.temps[id(node.operand2)] = b
        r = self.compare(node.operator, a, b, node.operand1.type, node.operand2.type, node)
        c = node.cascade
        prev, pt = b, node.operand2.type
        while c is not None:
            if not self.truth(r):
                return r
            x = self.ev(c.operand2, fr)
            r = self.compare(c.operator, prev, x, pt, c.operand2.type, c)
            prev, pt = x, c.operand2.type
            c = c.cascade
        return r

    def compare(self, op, a, b, ta, tb, node):
        if op == "is":
            return a is b
        if op == "is_not":
            return a is not b
        if op == "in":
            return V.contains(a, b)
        if op == "not_in":
            return V.notcontains(a, b)
        import operator as O
        f = {"==": O.eq, "!=": O.ne, "<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge, "<>": O.ne}[op]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
                return f(a.off, b.off)
            if op in ("==", "!="):
                return op == "!="
            raise Unsupported("pointer comparison")
        ta, tb = strip_const(ta), strip_const(tb)
        if not ta.is_pyobject and not tb.is_pyobject and ta.is_int and tb.is_int and not (
                isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool))):
            ca = self.maybe_ct(ta) or CT(32, True)
            cb = self.maybe_ct(tb) or CT(32, True)
            c = promote(ca, cb)
            a, b = wrap(a, c), wrap(b, c)
        return f(a, b)

    def e_CondExprNode(self, node, fr):
        c = self.truth(self.ev(node.condition, fr))
        v = self.ev(node.true_val if c else node.false_val, fr)
        ct = self.maybe_ct(node.type)
        if ct is not None and isinstance(v, (int, SymInt)):
            v = wrap(v, ct)
        return v

    def e_EvalWithTempExprNode(self, node, fr):
        r = node.lazy_temp
        fr.temps[id(r)] = self.ev(r.expression, fr)
        return self.ev(node.subexpression, fr)

    def e_ResultRefNode(self, node, fr):
        if id(node) in fr.temps:
            return fr.temps[id(node)]
        return self.ev(node.expression, fr)

    def e_IndexNode(self, node, fr):
        b = self.ev(node.base, fr)
        i = self.ev(node.index, fr)
        if isinstance(b, Ptr):
            return b.get(i)
        if b is None:
            raise TypeError("'NoneType' object is not subscriptable")
        if isinstance(b, str) and isinstance(i, SymInt):
            i = i.__index__()
        t = strip_const(node.type)
        r = b[i]
        if getattr(t, "is_unicode_char", False) or (getattr(t, "is_int", False) and isinstance(r, (str, SymStr))):
            return vcall.v_ord(r)
        ct = self.maybe_ct(t)
        if ct is not None and isinstance(r, (int, SymInt)):
            return wrap(r, ct)
        return r

    def e_SliceIndexNode(self, node, fr):
        b = self.ev(node.base, fr)
        a = self.ev(node.start, fr) if node.start is not None else None
        z = self.ev(node.stop, fr) if node.stop is not None else None
        if isinstance(b, Ptr):
            if a is None:
                a = 0
            if z is None:
                raise Unsupported("open pointer slice")
            segs = []
            for k in range(int(a), int(z)):
                segs.append(from_low(b.buf.load(b.off + k), CT(8, False)))
            return vcall.v_bytes(segs)
        if b is None:
            raise TypeError("'NoneType' object is not subscriptable")
        a = a.__index__() if isinstance(a, SymInt) else a
        z = z.__index__() if isinstance(z, SymInt) else z
        return b[a:z]

    def e_SliceNode(self, node, fr):
        return slice(self.ev(node.start, fr), self.ev(node.stop, fr), self.ev(node.step, fr))

    def e_TupleNode(self, node, fr):
        return tuple(self.seq(node, fr))

    def seq(self, node, fr):
        out = []
        for a in node.args:
            if type(a).__name__ == "StarredUnpackingNode":
                out.extend(self.ev(a.target, fr))
            else:
                out.append(self.ev(a, fr))
        m = getattr(node, "mult_factor", None)
        if m is not None:
            out = out * self.ev(m, fr)
        return out

    def e_ListNode(self, node, fr):
        return self.seq(node, fr)

    def e_AsTupleNode(self, node, fr):
        return tuple(self.ev(node.arg, fr))

    def e_SetNode(self, node, fr):
        return vcall.SymSet([self.ev(a, fr) for a in node.args])

    def e_DictNode(self, node, fr):
        d = vcall.SymDict()
        for p in node.key_value_pairs:
            d[self.ev(p.key, fr)] = self.ev(p.value, fr)
        return d

    def e_JoinedStrNode(self, node, fr):
        return rope.concat_text([self.ev(v, fr) for v in node.values])

    def e_FormattedValueNode(self, node, fr):
        v = self.ev(node.value, fr)
        spec = self.ev(node.format_spec, fr) if node.format_spec is not None else ""
        conv = node.conversion_char
        return vcall.fmt_value(v, conv, spec or "")

    # -- generators and comprehensions

    def e_InlinedGeneratorExpressionNode(self, node, fr):
        gen = node.gen
        loop = gen.def_node.gbody.body
        name = str(getattr(node, "orig_func", "") or "")
        g = Frame(fr)
        for n, v in self.gen_args(gen, fr):
            g.vars[n] = v
        for e in self.gen_locals(gen):
            g.vars.setdefault(e, None) if False else None
        if name in ("any", "all"):
            r = self.stat(loop, g)
            return g.ret if r is RET else (name == "all")
        if name == "sum":
            s = []
            self.collect(loop, g, s)
            return vcall.v_sum(s)
        t = strip_const(node.type)
        tn = getattr(t, "name", "")
        if tn == "dict":
            g.sink = vcall.SymDict()
        elif tn == "set":
            g.sink = vcall.SymSet()
        else:
            g.sink = []
        g2 = g
        out = []
        g.gen = out
        r = self.stat(loop, g)
        res = g.sink
        if not len(res) and out:
            for x in out:
                res.add(x) if isinstance(res, set) else res.append(x)
        if name == "sorted":
            return sorted(res)
        if tn == "tuple":
            return tuple(res)
        return res

    def gen_args(self, gen, fr):
        out = []
        for n in ("call_parameters", ):
            ps = getattr(gen, n, None) or []
            args = getattr(gen.def_node, "args", []) or []
            for a, p in zip(args, ps):
                out.append((a.name or a.declarator.name, self.ev(p, fr)))
        return out

    def gen_locals(self, gen):
        return []

    def collect(self, loop, g, out):
        g.gen = out
        self.stat(loop, g)

    def e_GeneratorExpressionNode(self, node, fr):
        g = Frame(fr)
        for n, v in self.gen_args(node, fr):
            g.vars[n] = v
        out = []
        self.collect(node.def_node.gbody.body, g, out)
        return iter(out)

    def e_YieldExprNode(self, node, fr):
        v = self.ev(node.arg, fr) if node.arg is not None else None
        f = fr
        while f is not None:
            if f.gen is not None:
                f.gen.append(v)
                return None
            f = f.parent
        raise Unsupported("generator function")

    def e_ComprehensionNode(self, node, fr):
        g = Frame(fr)
        t = getattr(strip_const(node.type), "name", "list")
        g.sink = vcall.SymDict() if t == "dict" else vcall.SymSet() if t == "set" else []
        self.stat(node.loop, g)
        return g.sink

    def e_ScopedExprNode(self, node, fr):
        return self.ev(node.arg, fr)

    def e_ImportNode(self, node, fr):
        return self.world.imp(str(node.module_name.value), self.globals, None, (), 0)

    def e_PyCFunctionNode(self, node, fr):
        return None

    def e_LambdaNode(self, node, fr):
        dn = node.def_node
        ps = self.params_of(dn)

        def f(*args, **kw):
            g = Frame(fr)
            g.vars.update(self.bind("<lambda>", ps, args, kw, None, None))
            return self.body(dn.body, g)
        return f

    def e_SizeofTypeNode(self, node, fr):
        return self.ct(node.arg_type).w // 8

    def e_SizeofVarNode(self, node, fr):
        return self.ct(node.operand.type).w // 8

    def e_IteratorNode(self, node, fr):
        return self.ev(node.sequence, fr)

    def e_RawCNameExprNode(self, node, fr):
        return None
