"""C code that the extensions link against: compiled from /repo's current
sources to LLVM IR by clang and interpreted symbolically."""
import os
import re
import subprocess
import tempfile

import z3

from .core import Unsupported, BoundExceeded, SymInt, mkbv, ctx

STEP_MAX = 20000


class Func:
    def __init__(self, name, ret, args):
        self.name, self.ret, self.args = name, ret, args
        self.blocks = {}
        self.entry = None


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.text = text
        self.globals = {}
        self.funcs = {}
        self.parse(text)

    def parse(self, text):
        cur, blk = None, None
        for line in text.splitlines():
            line = line.split(" ;")[0].rstrip()
            if not line or line.startswith(";"):
                continue
            if cur is None:
                m = re.match(r"@([\w.$]+) = .*?(?:constant|global) (i\d+) (-?\d+|zeroinitializer)", line)
                if m:
                    v = 0 if m.group(3) == "zeroinitializer" else int(m.group(3))
                    self.globals[m.group(1)] = (int(m.group(2)[1:]), v)
                    continue
                m = re.match(r"define .*?@([\w.$]+)\((.*?)\)[^()]*\{$", line)
                if m:
                    hdr = line.split("@")[0]
                    rt = [t for t in hdr.split() if re.fullmatch(r"i\d+|void|ptr", t)]
                    args = []
                    for a in split_args(m.group(2)):
                        ts = a.split()
                        args.append((ts[0], ts[-1]))
                    cur = Func(m.group(1), rt[-1], args)
                    blk = None
                continue
            if line == "}":
                self.funcs[cur.name] = cur
                cur = None
                continue
            m = re.match(r"([\w.$-]+):", line)
            if m and not line.startswith(" "):
                blk = m.group(1)
                cur.blocks[blk] = []
                if cur.entry is None:
                    cur.entry = blk
                continue
            if blk is None:
                blk = str(len(cur.args))
                cur.blocks[blk] = []
                cur.entry = blk
            line = re.sub(r", ![\w.]+ !\d+", "", line.strip())
            line = re.sub(r", !(dbg|tbaa|llvm\.loop|range|noundef|srcloc) ?![\w.]*", "", line)
            cur.blocks[blk].append(line)

    # -- interpretation; integers are z3 bit-vectors, pointers (buf, off)

    def run(self, name, args):
        f = self.funcs.get(name)
        if f is None:
            raise Unsupported("no IR for C function " + name)
        env = {}
        for (t, n), v in zip(f.args, args):
            env[n] = v
        self._steps = 0
        return self._exec(f, env)

    def val(self, env, ty, tok):
        if tok.startswith("%"):
            return env[tok]
        if tok.startswith("@"):
            raise Unsupported("IR global pointer " + tok)
        if ty == "ptr":
            if tok == "null":
                return None
            raise Unsupported("IR pointer constant " + tok)
        w = int(ty[1:])
        if tok == "true":
            return z3.BitVecVal(1, 1)
        if tok == "false":
            return z3.BitVecVal(0, 1)
        if tok in ("undef", "poison"):
            raise Unsupported("IR undef")
        return z3.BitVecVal(int(tok), w)

    def _exec(self, f, env):
        blk, prev = f.entry, None
        while True:
            ins = f.blocks[blk]
            i = 0
            phis = {}
            while i < len(ins) and " = phi " in ins[i]:
                m = re.match(r"(%[\w.]+) = phi (\w+) (.*)", ins[i])
                for a, b in re.findall(r"\[ (\S+), %([\w.$-]+) \]", m.group(3)):
                    if b == prev:
                        phis[m.group(1)] = self.val(env, m.group(2), a)
                        break
                i += 1
            env.update(phis)
            nxt = None
            while i < len(ins):
                self._steps += 1
                if self._steps > STEP_MAX:
                    raise BoundExceeded("C function steps")
                r = self.step(ins[i], env)
                i += 1
                if r is None:
                    continue
                if r[0] == "ret":
                    return r[1]
                nxt = r[1]
                break
            prev, blk = blk, nxt

    def step(self, line, env):
        if line.startswith("ret"):
            if line == "ret void":
                return ("ret", None)
            m = re.match(r"ret (\w+) (\S+)", line)
            return ("ret", self.val(env, m.group(1), m.group(2)))
        if line.startswith("br label"):
            return ("br", re.match(r"br label %([\w.$-]+)", line).group(1))
        if line.startswith("br i1"):
            m = re.match(r"br i1 (\S+), label %([\w.$-]+), label %([\w.$-]+)", line)
            c = self.val(env, "i1", m.group(1))
            t = ctx().branch(c == z3.BitVecVal(1, 1))
            return ("br", m.group(2) if t else m.group(3))
        if line.startswith("store"):
            m = re.match(r"store (?:volatile )?(\w+) (\S+), ptr (\S+?),", line + ",")
            v = self.val(env, m.group(1), m.group(2))
            p = self.val(env, "ptr", m.group(3))
            if m.group(1) == "ptr":
                p[0][("p", p[1])] = v
                return None
            n = v.size() // 8
            for k in range(n):
                p[0].store(p[1] + k, z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)))
            return None
        m = re.match(r"(%[\w.]+) = (.*)", line)
        if not m:
            if line.startswith(("call void @llvm.", "tail call void @llvm.")):
                return None
            raise Unsupported("IR: " + line)
        dst, rhs = m.groups()
        env[dst] = self.expr(rhs, env)
        return None

    def expr(self, s, env):
        op = s.split()[0]
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            s2 = re.sub(r"\b(nuw|nsw|exact|disjoint)\b ?", "", s)
            m = re.match(r"\w+ (i\d+) (\S+), (\S+)", s2)
            a, b = self.val(env, m.group(1), m.group(2)), self.val(env, m.group(1), m.group(3))
            return arith(op, a, b)
        if op == "icmp":
            m = re.match(r"icmp (?:samesign )?(\w+) (\w+) (\S+), (\S+)", s)
            p, t = m.group(1), m.group(2)
            a, b = self.val(env, t, m.group(3)), self.val(env, t, m.group(4))
            if t == "ptr":
                if a is None or b is None:
                    r = (a is b)
                    return z3.BitVecVal(int(r if p == "eq" else not r), 1)
                if a[0] is not b[0]:
                    raise Unsupported("pointer comparison")
                x, y = a[1], b[1]
                r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p]
                return z3.BitVecVal(int(bool(r)), 1)
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b),
                 "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
                 "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[p]()
            return z3.simplify(z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        if op in ("zext", "sext", "trunc"):
            m = re.match(r"\w+ (?:nneg |nuw |nsw )*(i\d+) (\S+) to (i\d+)", s)
            v = self.val(env, m.group(1), m.group(2))
            w = int(m.group(3)[1:])
            if op == "trunc":
                return z3.simplify(z3.Extract(w - 1, 0, v))
            k = w - v.size()
            return z3.simplify(z3.ZeroExt(k, v) if op == "zext" else z3.SignExt(k, v))
        if op == "getelementptr":
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*(\w+), ptr (\S+), (\w+) (\S+)$", s)
            if not m:
                raise Unsupported("IR: " + s)
            esz = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(m.group(1))
            p = self.val(env, "ptr", m.group(2))
            o = z3.simplify(self.val(env, m.group(3), m.group(4)))
            if esz is None or not z3.is_bv_value(o):
                raise Unsupported("IR: " + s)
            return (p[0], p[1] + esz * o.as_signed_long())
        if op == "load":
            m = re.match(r"load (?:volatile )?(\w+), ptr (\S+?)(,|$)", s)
            t = m.group(1)
            if m.group(2).startswith("@"):
                w, v = self.globals[m.group(2)[1:]]
                return z3.BitVecVal(v, w)
            p = self.val(env, "ptr", m.group(2))
            if t == "ptr":
                return p[0][("p", p[1])]
            n = int(t[1:]) // 8
            bs = [p[0].load(p[1] + k) for k in range(n)]
            v = bs[0] if n == 1 else z3.Concat(*reversed(bs))
            return z3.simplify(v)
        if op == "select":
            m = re.match(r"select i1 (\S+), (\w+) (\S+), \w+ (\S+)", s)
            c = self.val(env, "i1", m.group(1))
            a, b = self.val(env, m.group(2), m.group(3)), self.val(env, m.group(2), m.group(4))
            if m.group(2) == "ptr":
                return a if ctx().branch(c == z3.BitVecVal(1, 1)) else b
            return z3.simplify(z3.If(c == z3.BitVecVal(1, 1), a, b))
        if op == "alloca":
            return (Scratch(), 0)
        if op == "freeze":
            m = re.match(r"freeze (\w+) (\S+)", s)
            return self.val(env, m.group(1), m.group(2))
        m = re.match(r"(?:tail |musttail |notail )?call .*?(i\d+|ptr|void) @([\w.$]+)\((.*)\)", s)
        if m:
            name = m.group(2)
            args = []
            for a in split_args(m.group(3)):
                ts = a.split()
                args.append(self.val(env, ts[0], ts[-1]))
            if name.startswith("llvm.bswap"):
                v = args[0]
                n = v.size() // 8
                return z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(n)]))
            if name in self.funcs:
                f = self.funcs[name]
                return self._exec(f, {n: v for (t, n), v in zip(f.args, args)})
        raise Unsupported("IR: " + s)


class Scratch(dict):
    def load(self, k):
        if k not in self:
            self[k] = z3.BitVec(ctx().fresh("uninit"), 8)
        return self[k]

    def store(self, k, v):
        self[k] = v


def arith(op, a, b):
    if op == "shl":
        b = z3.simplify(b)
        if z3.is_bv_value(b):
            return lin(a * z3.BitVecVal(1 << b.as_long(), a.size()))
        return z3.simplify(a << b)
    if op in ("add", "sub", "mul"):
        r = {"add": a + b, "sub": a - b, "mul": a * b}[op]
        return lin(r)
    r = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "lshr": lambda: z3.LShR(a, b),
         "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
         "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
    return z3.simplify(r)


def lin(e):
    """Normal form of linear terms: sum of constant * atom, so that a chain of
    shifts and additions and a multiplication by the same constant coincide."""
    w = e.size()
    coef, order = {}, []

    def go(t, c):
        d = t.decl().kind()
        if z3.is_bv_value(t):
            add(None, t.as_long() * c)
        elif d == z3.Z3_OP_BADD:
            for ch in t.children():
                go(ch, c)
        elif d == z3.Z3_OP_BSUB:
            go(t.arg(0), c)
            go(t.arg(1), -c)
        elif d == z3.Z3_OP_BNEG:
            go(t.arg(0), -c)
        elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            go(t.arg(1), c * t.arg(0).as_long())
        elif d == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(1)):
            go(t.arg(0), c * t.arg(1).as_long())
        else:
            add(t, c)

    def add(t, c):
        k = None if t is None else t.get_id()
        if k not in coef:
            coef[k] = [t, 0]
            order.append(k)
        coef[k][1] += c

    go(e, 1)
    terms = []
    for k in order:
        t, c = coef[k]
        c %= 1 << w
        if c == 0:
            continue
        if t is None:
            terms.append(z3.BitVecVal(c, w))
        elif c == 1:
            terms.append(t)
        else:
            terms.append(t * z3.BitVecVal(c, w))
    if not terms:
        return z3.BitVecVal(0, w)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


CLANG = "clang"


def compile_ir(src_dir, c_files, extra, includes, tmp):
    """IR of the given C files of /repo plus a generated wrapper."""
    texts = []
    wrapper = os.path.join(tmp, "wrap.c")
    with open(wrapper, "w") as f:
        f.write(extra)
    for path in list(c_files) + [wrapper]:
        out = os.path.join(tmp, os.path.basename(path) + ".ll")
        cmd = [CLANG, "-O1", "-S", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w",
               "-fno-discard-value-names", "-o", out] + ["-I" + i for i in includes] + [path]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Unsupported("clang: " + p.stderr[:400])
        with open(out) as f:
            texts.append(f.read())
    return texts
