"""Queries over non-linear real arithmetic: only the constraints that share
variables with the question are used, and products are first abstracted to
fresh variables (both only weaken the premises, so `unsat` stays `unsat`)."""
import z3

_VARS = {}  # expression id -> (expression, variable ids, non-linear?)


def info(e):
    k = e.get_id()
    r = _VARS.get(k)
    if r is not None:
        return r
    seen, vs, nl = set(), set(), False
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            dk = d.kind()
            if dk == z3.Z3_OP_UNINTERPRETED:
                vs.add(d.name())
            if dk in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and t.sort_kind() == z3.Z3_REAL_SORT:
                if dk == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
                    nl = True
                if dk == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in t.children()) > 1:
                    nl = True
            elif dk == z3.Z3_OP_POWER:
                nl = True
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    if len(_VARS) > 20000:
        _VARS.clear()
    _VARS[k] = r = (e, frozenset(vs), nl)
    return r


def connected(cons, conds):
    """constraints that (transitively) share variables with conds"""
    vs = set()
    for c in conds:
        vs |= info(c)[1]
    rest = [info(c) for c in cons]
    out = []
    while True:
        keep, added = [], False
        for r in rest:
            if r[1] & vs or not r[1]:
                out.append(r[0])
                vs |= r[1]
                added = True
            else:
                keep.append(r)
        rest = keep
        if not added:
            return out


def linearise(forms):
    """formulas with every non-linear monomial replaced by a variable, and
    elementary facts about these; None if there is nothing to do"""
    divs = {}
    side = []

    def nodiv(e):
        """replace quotients bottom-up"""
        while True:
            stack, seen, found = [e], set(), None
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    if t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)) \
                            and not has_div(t.arg(0)) and not has_div(t.arg(1)):
                        found = t
                        break
                    stack.extend(t.children())
            if found is None:
                return e
            a, b = z3.simplify(found.arg(0), som=True), z3.simplify(found.arg(1), som=True)
            key = (a.get_id(), b.get_id())
            if key not in divs:
                q = z3.FreshReal("quot")
                divs[key] = (q, a, b)
                side.append(z3.Or(b == 0, q * b == a))
            e = z3.substitute(e, (found, divs[key][0]))

    def has_div(e):
        stack, seen = [e], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
                return True
            stack.extend(t.children())
        return False

    fs = [nodiv(f) for f in forms]
    fs = [z3.simplify(f, som=True, hoist_ite=False) for f in fs + side]
    mono = {}
    facts = []

    def factors(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            return [x for c in t.children() for x in factors(c)]
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            n = t.arg(1).as_fraction()
            if n.denominator == 1 and 0 < n <= 16:
                return factors(t.arg(0)) * int(n)
        return [t]

    def var(fa):
        key = tuple(sorted(f.get_id() for f in fa))
        if len(fa) == 1:
            return fa[0]
        if key not in mono:
            v = z3.FreshReal("mono")
            mono[key] = (v, fa)
            for f in {f.get_id(): f for f in fa}.values():
                facts.append(z3.Implies(f == 0, v == 0))
            facts.append(z3.Implies(v == 0, z3.Or(*[f == 0 for f in fa])))
            cnt = {}
            for f in fa:
                cnt[f.get_id()] = cnt.get(f.get_id(), 0) + 1
            odd = [f for f in {f.get_id(): f for f in fa}.values() if cnt[f.get_id()] % 2]
            if not odd:
                facts.append(v >= 0)
            elif len(odd) == 2:
                facts.append(z3.Implies((odd[0] > 0) == (odd[1] > 0), v >= 0))
                facts.append(z3.Implies((odd[0] > 0) != (odd[1] > 0), v <= 0))
        return mono[key][0]

    def lin(e):
        subst, stack, seen = [], [e], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if not z3.is_app(t):
                return None
            k = t.decl().kind()
            if t.sort_kind() == z3.Z3_REAL_SORT and k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                co, fa = None, []
                for f in factors(t):
                    if z3.is_rational_value(f):
                        co = f if co is None else co * f
                    else:
                        fa.append(f)
                if len(fa) > 1:
                    if any(f.decl().kind() != z3.Z3_OP_UNINTERPRETED and f.num_args() for f in fa):
                        # not in normal form (conditional inside): opaque
                        v = z3.FreshReal("opaque") if t.get_id() not in opaque else opaque[t.get_id()][0]
                        opaque[t.get_id()] = (v, t)
                        subst.append((t, v))
                        continue
                    v = var(fa)
                    subst.append((t, v if co is None else co * v))
                    continue
            stack.extend(t.children())
        return z3.substitute(e, *subst) if subst else e

    opaque = {}
    out = []
    for f in fs:
        g = lin(f)
        if g is None:
            return None
        out.append(g)
    if not mono and not opaque:
        return None
    return out + facts


def query(cons, cond, timeout):
    """(result, model or None, number of solver calls) of cons & cond; a model
    only covers the constraints connected with cond"""
    sl = connected(cons, [cond])
    key = (cond.get_id(), frozenset(c.get_id() for c in sl))
    if key in _ASKED:
        return _ASKED[key][0], _ASKED[key][1], 0
    r, m, n = _query(sl, cond, timeout)
    if r != z3.unknown:
        _ASKED[key] = (r, m, cond, sl)  # the expressions stay alive: ids are unique
    return r, m, n


_ASKED = {}


def _query(sl, cond, timeout):
    n = 0
    if info(cond)[2] or any(info(c)[2] for c in sl):
        fs = linearise(sl + [cond])
        if fs is not None:
            s = z3.Solver()
            s.set("timeout", min(timeout, 5000))
            s.add(*fs)
            n += 1
            if s.check() == z3.unsat:
                return z3.unsat, None, n
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*sl)
    s.add(cond)
    n += 1
    r = s.check()
    return r, (s.model() if r == z3.sat else None), n
