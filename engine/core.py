"""Symbolic core: path explorer (re-execution DFS) and symbolic scalars.

Every value that the checked code branches on is a z3 term; each branch is
decided by the solver (both sides feasible => both are explored), and each
property assertion is a solver query  path_condition AND NOT assertion.
"""
import math
import random
import time
from fractions import Fraction

import z3

from . import nra

z3.set_param("smt.random_seed", 1)


class Ctl(BaseException):
    """Engine control flow; never caught by the code under test."""


class PathEnd(Ctl):
    """Assumption not satisfiable on this path."""


class Unsupported(Ctl):
    """The engine has no model for an operation the code performed."""


class BoundExceeded(Ctl):
    """A loop/size bound of the harness was exceeded."""


class Candidate(Ctl):
    """An assertion that can fail: candidate violation."""

    def __init__(self, label, model, neg=None):
        super().__init__(label)
        self.label = label
        self.model = model
        self.neg = neg


class Stats:
    def __init__(self):
        self.queries = 0
        self.discharged = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.hard = 0
        self.branches = 0
        self.paths = 0
        self.assertions = 0

    def as_dict(self):
        return dict(self.__dict__)


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


QUERY_TIMEOUT_MS = 20000
BRANCH_TIMEOUT_MS = 5000


class Ctx:
    def __init__(self, prefix, stats, deadline=None):
        self.prefix = list(prefix)
        self.decisions = []
        self.alternatives = []
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_TIMEOUT_MS)
        self.cons = []
        self.nonlinear = False
        self.model = None
        self.fresh_n = {}
        self.inputs = {}  # name -> (kind, expr/desc)
        self.soft = []
        self.notes = []
        self.imprecise = []
        self.unknown_checks = []
        self.checked = {}
        self.deadline = deadline
        self.memo = {}
        self.log = []
        self.witness = set()

    # -- naming
    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return "%s!%d" % (base, n)

    # -- solver plumbing
    def _check(self, *assumptions, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise BoundExceeded("time budget")
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*assumptions)
        if timeout:
            self.solver.set("timeout", BRANCH_TIMEOUT_MS)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def _assert(self, cond):
        self.solver.add(cond)
        self.cons.append(cond)
        if not self.nonlinear and nra.info(cond)[2]:
            self.nonlinear = True

    def _ask(self, cond, timeout=BRANCH_TIMEOUT_MS):
        """(result, model or None) of path & cond, where the path is taken to
        be satisfiable"""
        if not self.nonlinear and not nra.info(cond)[2]:
            r = self._check(cond, timeout=timeout if timeout != BRANCH_TIMEOUT_MS else None)
            return r, (self.solver.model() if r == z3.sat else None)
        if self.deadline is not None and time.time() > self.deadline:
            raise BoundExceeded("time budget")
        if self.stats.hard < 5:
            # often still easy, and gives a model of the whole path
            r = self._check(cond, timeout=300)
            if r != z3.unknown:
                return r, (self.solver.model() if r == z3.sat else None)
            self.stats.hard += 1
        t = time.time()
        r, m, n = nra.query(self.cons, cond, timeout)
        self.stats.queries += n
        self.stats.solver_s += time.time() - t
        return r, None

    def add(self, cond):
        self._assert(cond)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(cond, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def assume(self, cond):
        cond = as_bool_expr(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathEnd()
        i = len(self.decisions)
        replaying = i < len(self.prefix)
        self.add(cond)
        if replaying:
            return
        if self.model is None:
            r, m = self._ask(cond)
            if r == z3.unsat:
                raise PathEnd()
            self.model = m

    def feasible(self, cond):
        """sat / unsat / unknown of path & cond (no state change)."""
        if self.model is not None:
            try:
                if z3.is_true(self.model.eval(cond, model_completion=True)):
                    return z3.sat, self.model
            except z3.Z3Exception:
                pass
        return self._ask(cond)

    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self.add(cond if d else z3.Not(cond))
            return d
        self.stats.branches += 1
        if i > 50000:
            raise BoundExceeded("branches of one path")
        ncond = z3.Not(cond)
        rt, mt = self.feasible(cond)
        rf, mf = self.feasible(ncond)
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd()
        if rf == z3.unsat:
            d = True
        elif rt == z3.unsat:
            d = False
        else:
            d = True
            self.alternatives.append(self.decisions + [False])
        if rt == z3.unknown or rf == z3.unknown:
            self.stats.unknown += 1
        self.decisions.append(d)
        self._assert(cond if d else ncond)
        self.model = mt if d else mf
        return d

    def must(self, cond):
        """True iff cond holds on every continuation of this path (decided
        by the solver; unknown counts as no)."""
        cond = z3.simplify(as_bool_expr(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r, _ = self.feasible(z3.Not(cond))
        return r == z3.unsat

    def check(self, cond, label):
        """Assert property ``cond`` on this path."""
        self.stats.assertions += 1
        self.checked[label] = self.checked.get(label, 0) + 1
        cond = z3.simplify(as_bool_expr(cond))
        if z3.is_true(cond):
            self.stats.discharged += 1
            return
        t0 = time.time()
        if z3.is_false(cond):
            r = z3.sat if self.nonlinear else self._check(timeout=QUERY_TIMEOUT_MS)
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(cond)
            ab = abstract_mul(neg)
            if ab is not None and self._check(ab, timeout=4000) == z3.unsat:
                self.stats.discharged += 1
                return
            r, _ = self._ask(neg, QUERY_TIMEOUT_MS)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            self.unknown_checks.append(label)
            return
        m = self.small_model(neg)
        raise Candidate(label, m, neg)

    def small_model(self, extra=None):
        """A model of the path (and extra), preferring small values."""
        s = self.solver
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            if self.nonlinear:
                m = self._guess()
                if m is not None:
                    return m
            r = self._check(timeout=QUERY_TIMEOUT_MS)
            if r != z3.sat:
                return None
            best = s.model()
            groups = list(self.soft)
            s.push()
            for g in groups:
                s.add(g)
            r = self._check(timeout=3000)
            if r == z3.sat:
                best = s.model()
                s.pop()
                return best
            s.pop()
            t = time.time()
            for g in groups:
                if time.time() - t > 10:
                    break
                s.push()
                s.add(g)
                r = self._check(timeout=1000)
                if r == z3.sat:
                    best = s.model()
                else:
                    s.pop()
            r = self._check(timeout=3000)
            if r == z3.sat:
                best = s.model()
            return best
        finally:
            while s.num_scopes() > 0:
                s.pop()

    def _guess(self, seed=0):
        """a model with small numbers as real inputs: with these fixed, the
        rest is easy to solve"""
        s = self.solver
        reals = [rec[1] for rec in self.inputs.values() if rec[0] == "real"]
        rng = random.Random(len(reals) + 1000 * seed)
        for top in (3, 6, 12, 1, 40, 5):
            s.push()
            for r in reals:
                v = rng.choice((-1, 1, 1)) * rng.randint(1 if rng.random() < .8 else 0, top)
                if seed in (2, 3):
                    # float32 numbers with all their bits in use
                    v = z3.Q(rng.choice((-1, 1)) * (rng.getrandbits(23) | 0x800001), 1 << rng.randint(12, 34))
                elif seed % 2:
                    v = z3.Q(v * 1000 + rng.randint(1, 9), 7013)
                s.add(r == v)
            r = self._check(timeout=1500)
            m = s.model() if r == z3.sat else None
            s.pop()
            if m is not None:
                return m
        return None

    def concretize(self, e, cap=70):
        """Fork over the possible values of an integer term."""
        e = z3.simplify(e)
        v = _const_of(e)
        if v is not None:
            return v
        for _ in range(cap):
            i = len(self.decisions)
            if i < len(self.prefix):
                val = self.prefix[i][1]
            else:
                val = self._value_for(e)
            self.decisions.append(("v", val))
            if self.branch(e == val):
                return val
        raise BoundExceeded("concretisation of %s" % e)

    def _value_for(self, e):
        if self.model is None:
            if self.nonlinear:
                r, m, n = nra.query(self.cons, e == e, BRANCH_TIMEOUT_MS)
                self.stats.queries += n
            else:
                r = self._check()
                self.model = m = self.solver.model() if r == z3.sat else None
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                raise Unsupported("solver unknown in concretisation")
            return _const_of(m.eval(e, model_completion=True))
        v = self.model.eval(e, model_completion=True)
        c = _const_of(v)
        return c


def strip0(bv):
    """bv without leading zero bits that are syntactically there"""
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        n = max(1, bv.as_long().bit_length())
        return z3.BitVecVal(bv.as_long(), n)
    while z3.is_app_of(bv, z3.Z3_OP_CONCAT):
        ch = bv.children()
        if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
            bv = ch[1] if len(ch) == 2 else z3.Concat(*ch[1:])
        else:
            break
    return bv


def udivrem(p, q, rem):
    """unsigned p / q or p % q, in the narrowest width (one normal form)"""
    n = p.size()
    p, q = strip0(p), strip0(q)
    w = max(p.size(), q.size())
    p = z3.ZeroExt(w - p.size(), p) if w > p.size() else p
    q = z3.ZeroExt(w - q.size(), q) if w > q.size() else q
    r = z3.URem(p, q) if rem else z3.UDiv(p, q)
    return z3.ZeroExt(n - w, r) if n > w else r


def abstract_mul(e):
    """e with every bit-vector product replaced by a fresh variable (an
    over-approximation), or None if there is none"""
    seen = {}
    subst = []
    side = []
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_BMUL:
            subst.append((t, z3.BitVec("absmul!%d" % t.get_id(), t.size())))
            continue
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            v = z3.BitVec("absmul!%d" % t.get_id(), t.size())
            subst.append((t, v))
            side.append(z3.Or(t.arg(1) == 0, z3.ULT(v, t.arg(1))))
            stack.append(t.arg(1))
            continue
        stack.extend(t.children())
    if not subst:
        return None
    return z3.And(*([z3.substitute(e, *subst)] + [z3.substitute(x, *subst) for x in side]))


def _const_of(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return None


def as_bool_expr(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, SymInt):
        return as_bool_expr(c != 0)
    try:
        import numpy as np
        if isinstance(c, np.bool_):
            return z3.BoolVal(bool(c))
    except ImportError:
        pass
    return z3.BoolVal(bool(c))


def mkbool(e):
    if isinstance(e, (bool, SymBool)):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def And(*cs):
    cs = [as_bool_expr(c) for c in cs]
    return mkbool(z3.And(*cs)) if cs else True


def Or(*cs):
    cs = [as_bool_expr(c) for c in cs]
    return mkbool(z3.Or(*cs)) if cs else False


def Not(c):
    return mkbool(z3.Not(as_bool_expr(c)))


class SymBool:
    __slots__ = ("e",)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return And(self, o)
        return mkint(z3.If(self.e, 1, 0)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return Or(self, o)
        return mkint(z3.If(self.e, 1, 0)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, as_bool_expr(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return -self._int() - 1

    def _int(self):
        return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == as_bool_expr(o))
        if is_num(o):
            return self._int() == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __index__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return "SymBool(%s)" % self.e


# --------------------------------------------------------------- integers


def mkint(e):
    """SymInt or native int from an Int term."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbv(bv, nonneg=False):
    """SymInt or native int from a bit-vector term read as signed."""
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return bv.as_signed_long()
    return SymInt(None, bv, nonneg)


def is_num(x):
    return isinstance(x, (int, float, SymInt, SymReal, SymBool, Fraction))


def _bvconst(c, w):
    return z3.BitVecVal(c, w)


def _sext(bv, w):
    k = w - bv.size()
    if k <= 0:
        return bv
    return z3.SignExt(k, bv)


def _idx(x):
    """native numpy ints / IntEnum -> int"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    return x


class SymInt:
    """A Python int: either an unbounded z3 Int term (``_e``) or a
    bit-vector term read as a signed number (``bv``), with widths grown so
    that no operation wraps."""
    __slots__ = ("_e", "bv", "nonneg")

    def __init__(self, e, bv=None, nonneg=False):
        self._e = e
        self.bv = bv
        self.nonneg = nonneg

    @property
    def e(self):
        if self._e is None:
            bv = self.bv
            if self.nonneg:
                self._e = z3.BV2Int(z3.Extract(bv.size() - 2, 0, bv))
            else:
                self._e = z3.BV2Int(bv, is_signed=True)
        return self._e

    def __hash__(self):
        return 1315423911

    def __repr__(self):
        return "SymInt(%s)" % (self.bv if self._e is None else self._e)

    __str__ = None  # str() must go through the runtime

    def __index__(self):
        c = ctx()
        return c.concretize(self._e if self._e is not None else self.bv)

    def __int__(self):
        return self.__index__()

    def __bool__(self):
        return bool(self != 0)

    # -- pairing
    def _pair(self, o):
        """('bv', a, b) or ('int', a, b)"""
        o = _conv(o)
        if isinstance(o, int):
            if self.bv is not None:
                return "bv", self.bv, _bvconst(o, o.bit_length() + 1), o >= 0
            return "int", self._e, z3.IntVal(o), o >= 0
        if isinstance(o, SymInt):
            if self.bv is not None and o.bv is not None:
                return "bv", self.bv, o.bv, o.nonneg
            return "int", self.e, o.e, False
        return None

    def _arith(self, o, op, rev=False):
        if isinstance(o, (SymReal, float)):
            r = SymReal(z3.ToReal(self.e))
            return getattr(r, "__%s%s__" % ("r" if rev else "", op))(o)
        o = _conv(o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        k, a, b, onn = p
        ann = self.nonneg
        if rev:
            a, b = b, a
            ann, onn = onn, ann
        if k == "int":
            if op == "add":
                return mkint(a + b)
            if op == "sub":
                return mkint(a - b)
            if op == "mul":
                return mkint(a * b)
            if op in ("floordiv", "mod"):
                nz = ctx().branch(z3.simplify(b == 0))
                if nz:
                    raise ZeroDivisionError("integer division or modulo by zero")
                pos = ctx().branch(z3.simplify(b > 0))
                if pos:
                    # z3 div/mod with positive divisor is floor div/mod
                    return mkint(a / b) if op == "floordiv" else mkint(a % b)
                q = (-a) / (-b)  # floor((-a)/(-b)) == floor(a/b)
                return mkint(q) if op == "floordiv" else mkint(a - q * b)
            raise Unsupported("int op " + op)
        if op in ("add", "sub"):
            w = max(a.size(), b.size()) + 1
            a, b = _sext(a, w), _sext(b, w)
            if op == "add":
                return mkbv(a + b, ann and onn)
            return mkbv(a - b)
        if op == "mul":
            w = a.size() + b.size()
            return mkbv(_sext(a, w) * _sext(b, w), ann and onn)
        if op in ("floordiv", "mod"):
            if ctx().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            w = max(a.size(), b.size()) + 1
            a, b = _sext(a, w), _sext(b, w)
            if ann and onn:
                return mkbv(udivrem(a, b, op == "mod"), True)
            if op == "mod":
                return mkbv(a % b)  # bvsmod: sign of divisor
            m = a % b
            return mkbv((a - m) / b)
        raise Unsupported("bv op " + op)

    def __add__(self, o):
        return self._arith(o, "add")

    def __radd__(self, o):
        return self._arith(o, "add", True)

    def __sub__(self, o):
        return self._arith(o, "sub")

    def __rsub__(self, o):
        return self._arith(o, "sub", True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        r = getattr(o, "_sym_repeat", None)
        if r is not None:
            return r(self)
        return self._arith(o, "mul")

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        if isinstance(o, (str, bytes)):
            from . import rope
            return rope.repeat(o, self)
        return self._arith(o, "mul", True)

    def __floordiv__(self, o):
        return self._arith(o, "floordiv")

    def __rfloordiv__(self, o):
        return self._arith(o, "floordiv", True)

    def __mod__(self, o):
        return self._arith(o, "mod")

    def __rmod__(self, o):
        return self._arith(o, "mod", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.e))

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, o, mod=None):
        o = _conv(o)
        if isinstance(o, SymInt):
            o = o.__index__()
        if mod is not None or not isinstance(o, int) or o < 0:
            raise Unsupported("pow")
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self._pow2(1, o.bit_length() - 1)
        return o ** self.__index__()

    def _pow2(self, base, k=1):
        """base * 2**(k * self)"""
        if k == 0:
            return base
        if self.bv is not None and k == 1 and ctx().must(z3.And(self.bv >= 0, self.bv <= 64)
                                                         if self.bv.size() > 7 else self.bv >= 0):
            w = 66 + base.bit_length()
            e = self.bv
            e = z3.ZeroExt(w - e.size(), e) if e.size() <= w else z3.Extract(w - 1, 0, e)
            return mkbv(z3.BitVecVal(base, w) << e, True)
        if self.bv is None and k == 1 and ctx().must(z3.And(self.e >= 0, self.e <= 64)):
            r = z3.IntVal(base << 64)
            for i in range(63, -1, -1):
                r = z3.If(self.e == i, z3.IntVal(base << i), r)
            return mkint(r)
        return base << (k * self.__index__())

    def __invert__(self):
        return -self - 1

    # -- bitwise: only via bit-vectors
    def _tobv(self):
        if self.bv is not None:
            return self
        raise Unsupported("bitwise operation on an unbounded symbolic int")

    def _bit(self, o, op):
        o = _conv(o)
        if isinstance(o, bool):
            o = int(o)
        if self.bv is None:
            # x & (2**k - 1) == x % 2**k, exactly, for Python ints
            if op == "and" and isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
                return self % (o + 1)
            return mkbv(z3.Int2BV(self.e, 80)) ._bit(o, op) \
                if self._bounded(79) and isinstance(mkbv(z3.Int2BV(self.e, 80)), SymInt) \
                else self._tobv()
        if isinstance(o, int):
            if op == "and" and o >= 0:
                w = o.bit_length() + 1
                a = self.bv
                a = z3.Extract(w - 1, 0, a) if a.size() >= w else _sext(a, w)
                return mkbv(a & _bvconst(o, w), True)
            b = _bvconst(o, o.bit_length() + 1)
            onn = o >= 0
        elif isinstance(o, SymInt):
            if o.bv is None:
                return o._bit(self, op)
            b = o.bv
            onn = o.nonneg
        else:
            return NotImplemented
        w = max(self.bv.size(), b.size())
        a, b = _sext(self.bv, w), _sext(b, w)
        nn = self.nonneg and onn
        if op == "and":
            return mkbv(a & b, self.nonneg or onn)
        if op == "or":
            return mkbv(a | b, nn)
        return mkbv(a ^ b, nn)

    def _bounded(self, bits):
        return ctx().must(z3.And(self.e < 2**bits, self.e >= -2**bits))

    def __and__(self, o):
        return self._bit(o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, "xor")

    __rxor__ = __xor__

    def __lshift__(self, o):
        o = _conv(o)
        if isinstance(o, SymInt):
            o = o.__index__()
        if self.bv is None:
            return self * (1 << o)
        w = self.bv.size() + o
        return mkbv(_sext(self.bv, w) * _bvconst(1 << o, w), self.nonneg) if o else self

    def __rshift__(self, o):
        o = _conv(o)
        if isinstance(o, SymInt):
            o = o.__index__()
        if self.bv is None:
            return self // (1 << o)
        w = self.bv.size()
        if o >= w:
            return mkbv(z3.Extract(w - 1, w - 1, self.bv))
        return mkbv(z3.Extract(w - 1, o, self.bv), self.nonneg)

    def __rlshift__(self, o):
        if isinstance(o, int) and o > 0:
            return self._pow2(o)
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, (SymReal, float)):
            return getattr(SymReal(z3.ToReal(self.e)), op)(o)
        o2 = _conv(o)
        p = self._pair(o2)
        if p is None:
            if op == "__eq__":
                return False
            if op == "__ne__":
                return True
            return NotImplemented
        k, a, b, _ = p
        if k == "bv":
            w = max(a.size(), b.size())
            a, b = _sext(a, w), _sext(b, w)
        if op == "__eq__":
            return mkbool(a == b)
        if op == "__ne__":
            return mkbool(a != b)
        if op == "__lt__":
            return mkbool(a < b)
        if op == "__le__":
            return mkbool(a <= b)
        if op == "__gt__":
            return mkbool(a > b)
        return mkbool(a >= b)

    def __eq__(self, o):
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, "__ne__")

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    # -- misc int API
    def bit_length(self):
        n = 0
        x = abs(self)
        while x > 0:
            x = x >> 1
            n += 1
            if n > 80:
                raise BoundExceeded("bit_length")
        return n

    def to_bytes(self, length, byteorder="big", signed=False):
        from . import rope
        return rope.int_to_bytes(self, length, byteorder, signed)

    def item(self):
        return self

    def as_integer_ratio(self):
        return self, 1

    def conjugate(self):
        return self

    real = property(lambda self: self)
    imag = 0
    ndim = 0
    shape = ()

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self


def _conv(o):
    if isinstance(o, SymBool):
        return o._int()
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return int(o)
    if isinstance(o, SymInt):
        return o
    t = type(o)
    if t.__module__ == "numpy":
        try:
            return int(o) if t.__name__.startswith(("int", "uint")) else o
        except Exception:
            return o
    if hasattr(o, "_as_pyint"):
        return o._as_pyint()
    return o


def int_expr(x):
    x = _conv(x)
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported("not an int: %r" % (type(x),))


def ite_int(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return mkint(z3.If(as_bool_expr(c), int_expr(a), int_expr(b)))


# ------------------------------------------------------------------ reals


def mkreal(e):
    return SymReal(z3.simplify(e))


def real_expr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.ToReal(x._int().e)
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    t = type(x)
    if isinstance(x, float) or t.__module__ == "numpy":
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return None
        f = Fraction(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    raise Unsupported("not a number: %r" % (t,))


class SymReal:
    """A float, modelled as a mathematical real (rounding is outside the
    claim).  e is None for NaN/inf ("undefined")."""
    __slots__ = ("e", )

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return 2654435761

    def __repr__(self):
        return "SymReal(%s)" % self.e

    __str__ = None

    def view(self, t=None):
        """numpy scalars: a view as an array type is the scalar itself"""
        if t is None or hasattr(t, "_is_symnd"):
            return self
        raise Unsupported("reinterpreted number")

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def _bin(self, o, f):
        if isinstance(o, str) or o is None or isinstance(o, (list, tuple)):
            return NotImplemented
        if hasattr(o, "_is_symnd"):
            return NotImplemented
        if not is_num(o) and type(o).__module__ != "numpy":
            return NotImplemented
        b = real_expr(o)
        if self.e is None or b is None:
            return SymReal(None)
        return mkreal(f(self.e, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b):
        if a is None or b is None:
            return SymReal(None)
        if ctx().branch(z3.simplify(b == 0)):
            return SymReal(None)
        return mkreal(a / b)

    def __truediv__(self, o):
        if hasattr(o, "_is_symnd"):
            return NotImplemented
        return self._div(self.e, real_expr(o))

    def __rtruediv__(self, o):
        return self._div(real_expr(o), self.e)

    # what a numpy scalar can do
    def __getitem__(self, key):
        from . import arr
        if not (key is None or key is Ellipsis or isinstance(key, tuple) and all(k is None or k is Ellipsis for k in key)):
            raise IndexError("invalid index to scalar variable.")
        return arr.array(self, dtype="float32")[key]

    @property
    def shape(self):
        return ()

    ndim, size = 0, 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def astype(self, dtype):
        from . import arr
        return arr.array(self, dtype="float32").astype(dtype)[()]

    def __neg__(self):
        return self._bin(0, lambda a, b: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.e is None:
            return self
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == 2:
            return self * self
        if isinstance(o, (int, float)) and o == 0.5:
            return self.sqrt()
        if isinstance(o, (int, float)) and o == 1:
            return self
        raise Unsupported("real power")

    def sqrt(self):
        return sqrt(self)

    def __floor__(self):
        if self.e is None:
            raise ValueError("cannot convert float NaN to integer")
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return -(-self).__floor__()

    def __round__(self, n=None):
        """to even"""
        if self.e is None:
            if n is None:
                raise ValueError("cannot convert float NaN to integer")
            return self
        if n is not None and not isinstance(n, int):
            raise Unsupported("round")
        f = z3.RealVal(10**n if n is not None and n >= 0 else Fraction(1, 10**-(n or 0)))
        x = self.e * f
        lo = z3.ToInt(x)
        d = x - z3.ToReal(lo)
        half = z3.RealVal("1/2")
        r = lo + z3.If(z3.Or(d > half, z3.And(d == half, lo % 2 != 0)), z3.IntVal(1), z3.IntVal(0))
        return SymInt(r) if n is None else mkreal(z3.ToReal(r) / f)

    def _cmp(self, o, op):
        if o is None or isinstance(o, (str, list, tuple)) or hasattr(o, "_is_symnd"):
            return NotImplemented
        if not is_num(o) and type(o).__module__ != "numpy":
            return NotImplemented
        if isinstance(o, float) and math.isinf(o) and self.e is not None:
            return {"eq": False, "ne": True, "lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0}[op]
        b = real_expr(o)
        if self.e is None or b is None:
            return op == "ne"
        a = self.e
        return mkbool({"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b,
                       "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[op]())

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype("float32")


def sqrt(x):
    """Exact non-negative square root: fresh n with n >= 0 and n*n == x."""
    e = real_expr(x)
    if e is None:
        return SymReal(None)
    c = ctx()
    e = z3.simplify(e, som=True)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f < 0:
            return SymReal(None)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return SymReal(z3.RealVal("%d/%d" % (n, d)))
    key = ("sqrt", e.get_id())
    if key in c.memo:
        return SymReal(c.memo[key][0])
    n = z3.Real(c.fresh("sqrt"))
    c.memo[key] = (n, e)
    c.add(z3.And(n >= 0, n * n == e))
    return SymReal(n)


def ite_real(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    ea, eb = real_expr(a), real_expr(b)
    if ea is None or eb is None:
        return a if bool(mkbool(as_bool_expr(c))) else b
    return mkreal(z3.If(as_bool_expr(c), ea, eb))


# --------------------------------------------------------------- explorer


class PathResult:
    def __init__(self):
        self.kind = None  # ok / infeasible / unsupported / bound / candidate / error
        self.info = ""
        self.decisions = None
        self.model = None
        self.neg = None
        self.tb = ""
        self.ctx = None


def explore(fn, stats, max_paths=4000, deadline=None, on_path=None):
    """Run fn() on every feasible path.  ``on_path(result)`` may return True
    to stop."""
    global CTX
    work = [[]]
    results = []
    complete = True
    while work:
        if stats.paths >= max_paths or (deadline and time.time() > deadline):
            complete = False
            break
        prefix = work.pop()
        c = Ctx(prefix, stats, deadline)
        CTX = c
        res = PathResult()
        try:
            fn(c)
            res.kind = "ok"
        except PathEnd:
            res.kind = "infeasible"
        except Unsupported as ex:
            res.kind = "unsupported"
            res.info = str(ex)
            import traceback
            res.tb = traceback.format_exc()
        except BoundExceeded as ex:
            res.kind = "bound"
            res.info = str(ex)
        except Candidate as ex:
            res.kind = "candidate"
            res.info = ex.label
            res.model = ex.model
            res.neg = ex.neg
        except RecursionError as ex:
            res.kind = "unsupported"
            res.info = "recursion"
        except z3.Z3Exception as ex:
            res.kind = "unsupported"
            res.info = "z3: %s" % ex
            import traceback
            res.tb = traceback.format_exc()
        finally:
            CTX = None
        stats.paths += 1
        res.decisions = list(c.decisions)
        res.ctx = c
        work.extend(reversed(c.alternatives))
        CTX = c
        try:
            stop = on_path(res) if on_path else False
        finally:
            CTX = None
        res.ctx = None
        results.append(res)
        if stop:
            complete = False
            break
    return results, complete
