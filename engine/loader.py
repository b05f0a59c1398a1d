"""Loads /repo's Python sources, instrumented so that they run on symbolic
values.  The instrumentation is regenerated from the working tree on every
run; it only redirects calls, f-strings, ``in``, ``%`` and container displays
to the run-time library (engine.vcall) -- the code itself is what executes."""
import ast
import builtins
import os
import types

from . import vcall, arr
from .core import Unsupported

SRC = os.environ.get("VERIF_SRC", "/repo/src")


class Instrument(ast.NodeTransformer):
    def _v(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id="_V_", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                     args=args, keywords=[]), node)

    # annotations are left alone
    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def _func(self, node):
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "eval", "exec"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        c = self._v("call", [node.func] + node.args, node)
        c.keywords = node.keywords
        return c

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = ast.Constant("") if spec is None else self.visit(spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return self._v("fstr", [ast.List(elts=parts, ctx=ast.Load())], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._v("contains", [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                return self._v("notcontains", [node.left, node.comparators[0]], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._v("mod", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign(targets=[node.target],
                           value=self._v("mod", [ast.Name(id=node.target.id, ctx=ast.Load()), node.value], node)),
                node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[ast.Constant("**"), v], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[ast.Constant("kv"), k, v], ctx=ast.Load()))
        return self._v("mkdict2", [ast.List(elts=parts, ctx=ast.Load())], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._v("mkset", [ast.List(elts=node.elts, ctx=ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self._v("mkdict", [ast.copy_location(g, node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self._v("mkset", [ast.copy_location(g, node)], node)

    def visit_Try(self, node):
        self.generic_visit(node)
        wide = False
        for h in node.handlers:
            if h.type is None or "BaseException" in ast.dump(h.type):
                wide = True
        if wide:
            h = ast.ExceptHandler(
                type=ast.Attribute(value=ast.Name(id="_V_", ctx=ast.Load()), attr="Ctl", ctx=ast.Load()),
                name=None, body=[ast.Raise(exc=None, cause=None)])
            node.handlers.insert(0, ast.copy_location(h, node))
        return node


_CODE = {}
_PRISTINE = {}
FUNCS = {}  # module -> set of function names that exist (for evidence)


def find(name):
    p = os.path.join(SRC, *name.split("."))
    for cand, pkg in ((os.path.join(p, "__init__.py"), True), (p + ".py", False), (p + ".pyx", False)):
        if os.path.exists(cand):
            return cand, pkg
    return None, False


def code_for(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Instrument().visit(tree)
        ast.fix_missing_locations(tree)
        c = _CODE[path] = compile(tree, path, "exec", dont_inherit=True)
    return c


class World:
    """One fresh set of the package's modules (one per explored path)."""

    def __init__(self):
        self.mods = {}
        self.np, self.linalg = arr.make_numpy()
        self.sys = vcall.SysProxy()
        b = dict(vars(builtins))
        b["__import__"] = self.imp
        b["open"] = builtins.open
        self.builtins = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "finalfusion":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and find(name + "." + f)[0]:
                        self.load(name + "." + f)
                return m
            return self.mods["finalfusion"]
        if top == "numpy":
            if name == "numpy":
                return self.np
            if name == "numpy.linalg":
                return self.linalg if fromlist else self.np
            raise Unsupported("import " + name)
        if name == "sys":
            return self.sys
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["_V_"] = vcall.V
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            if path.endswith(".pyx"):
                from . import cy
                cy.module(name, path).populate(m, self)
            else:
                exec(code_for(path), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            parent, _, last = name.rpartition(".")
            setattr(self.mods[parent], last, m)
        return m
