"""Import hook: executes /repo/mappyfile (and the harnesses) from instrumented source."""
import ast
import builtins
import importlib
import os
import sys
import types
from . import shims
from .core import Unsupported

HOOKED_ATTRS = frozenset()


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def _h(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name("__sx__", ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def _mangle(self, n):
        if self.cls and n.startswith("__") and not n.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return "_" + c + n
        return n

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.cls.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        # annotations are never evaluated symbolically
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [
                x for x in (node.args.vararg, node.args.kwarg) if x]:
            a.annotation = None
        return self.generic_visit(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is None:
            # keep dataclass-like declarations intact
            return node
        if self.cls and isinstance(node.target, ast.Name):
            node.value = self.visit(node.value)
            return node
        t = ast.Assign(targets=[node.target], value=node.value)
        return self.visit(ast.copy_location(t, node))

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute):
            v = f.value
            sup = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"
            args = [self.visit(a) for a in node.args]
            kws = [self.visit(k) for k in node.keywords]
            if sup:
                node.args, node.keywords = args, kws
                return node
            c = self._h("callm", self.visit(v), ast.Constant(self._mangle(f.attr)), *args)
            c.keywords = kws
            return ast.copy_location(c, node)
        return self.generic_visit(node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = None if v.conversion == -1 else chr(v.conversion)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(self._h("fval", self.visit(v.value), ast.Constant(conv), spec))
        return ast.copy_location(self._h("fstr", *parts), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            return ast.copy_location(self._cmp(node.left, node.ops[0], node.comparators[0]), node)
        # a op b op c: bind the middle operands once
        items = [node.left] + node.comparators
        exprs = []
        prev = items[0]
        for i, op in enumerate(node.ops):
            right = items[i + 1]
            if i < len(node.ops) - 1 and not isinstance(right, (ast.Name, ast.Constant)):
                nm = "__sx_t%d" % i
                bind = ast.NamedExpr(target=ast.Name(nm, ast.Store()), value=right)
                exprs.append(self._cmp(prev, op, bind))
                prev = ast.Name(nm, ast.Load())
            else:
                exprs.append(self._cmp(prev, op, right))
                prev = right
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=exprs), node)

    def _cmp(self, a, op, b):
        if isinstance(op, ast.In):
            return self._h("contains", b, a)
        if isinstance(op, ast.NotIn):
            return self._h("not_contains", b, a)
        if isinstance(op, ast.Is):
            if isinstance(b, ast.Constant) and b.value is None:
                return ast.Compare(left=a, ops=[op], comparators=[b])
            return self._h("is_", a, b)
        if isinstance(op, ast.IsNot):
            if isinstance(b, ast.Constant) and b.value is None:
                return ast.Compare(left=a, ops=[op], comparators=[b])
            return self._h("is_not", a, b)
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._h("getitem", node.value, self._slice(node.slice)), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(func=ast.Name("slice", ast.Load()), args=[s.lower or n, s.upper or n, s.step or n],
                            keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                # value first, then container, then key: Python's order
                return ast.copy_location(ast.Expr(self._h3(node.value, t)), node)
        return node

    def _h3(self, value, t):
        # setitem_v(value, container, key) keeps evaluation order
        return self._h("setitem_v", value, t.value, t.slice)

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(self._h("delitem", t.value, t.slice)), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._h("mod", node.left, node.right), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(ast.Tuple([v], ast.Load()) if k is None else ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(self._h("mkdict", *parts), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple([node.key, node.value], ast.Load()), generators=node.generators)
        return ast.copy_location(self._h("dictcomp", g), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._h("mkset", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._h("mkset", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            names = []
            if h.type is None:
                names = ["BaseException"]
            else:
                for x in ast.walk(h.type):
                    if isinstance(x, ast.Name):
                        names.append(x.id)
            if "BaseException" in names:
                ctrl = ast.ExceptHandler(
                    type=ast.Attribute(value=ast.Name("__sx__", ast.Load()), attr="SxControl", ctx=ast.Load()),
                    name=None, body=[ast.Raise(exc=None, cause=None)])
                node.handlers.insert(0, ast.copy_location(ctrl, node))
                break
        return node

    def visit_MatchMapping(self, node):
        raise Unsupported("match statement on mappings")


def _setitem_v(v, o, k):
    shims.setitem(o, k, v)


shims.Helper.setitem_v = staticmethod(_setitem_v)

_code = {}
CODE_FUNCS = {}  # file -> list of function qualnames (for evidence)


def get_code(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _code.get(path)
    if c is None or c[0] != key:
        with builtins.open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        CODE_FUNCS[path] = [n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        tree = ast.fix_missing_locations(Instrument().visit(tree))
        c = _code[path] = (key, compile(tree, path, "exec", dont_inherit=True))
    return c[1]


class World:
    """one fresh instantiation of the instrumented package"""

    def __init__(self, repo, overrides, extra_roots=()):
        self.repo = repo
        self.mods = {}
        self.overrides = overrides  # module name -> module-like object
        self.extra_roots = extra_roots  # {name: path} instrumented extra top-level modules
        b = dict(builtins.__dict__)
        b.update(shims.BUILTINS)
        b["__import__"] = self._import
        self.builtins = b

    def find(self, full):
        parts = full.split(".")
        for root in (self.repo,):
            if parts[0] == "mappyfile":
                base = os.path.join(root, *parts)
                if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
                    return os.path.join(base, "__init__.py"), True
                if os.path.isfile(base + ".py"):
                    return base + ".py", False
        if full in self.extra_roots:
            return self.extra_roots[full], False
        return None, False

    def load(self, full):
        m = self.mods.get(full)
        if m is not None:
            return m
        parent = full.rpartition(".")[0]
        if parent and parent.split(".")[0] == "mappyfile":
            self.load(parent)
            m = self.mods.get(full)
            if m is not None:
                return m
        path, pkg = self.find(full)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % full, name=full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        d = m.__dict__
        d["__builtins__"] = self.builtins
        d["__sx__"] = shims.HELPER
        self.mods[full] = m
        try:
            exec(get_code(path), d)
        except BaseException:
            self.mods.pop(full, None)
            raise
        if parent and parent in self.mods:
            setattr(self.mods[parent], full.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - (level - 1)])
            full = base + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if top == "mappyfile" or full in self.extra_roots:
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and self.find(full + "." + f)[0]:
                        self.load(full + "." + f)
                return m
            return self.load(top) if "." in full else m
        ov = self.overrides.get(full)
        if ov is not None:
            if fromlist or "." not in full:
                return ov
            return self.overrides.get(top) or importlib.import_module(top)
        if full in BLOCKED:
            raise ImportError("No module named %r" % full)
        m = importlib.import_module(full)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    try:
                        importlib.import_module(full + "." + f)
                    except ImportError:
                        pass
            return m
        if "." in full:
            t = self.overrides.get(top)
            return t if t is not None else sys.modules[top]
        return m


BLOCKED = {"posix_path_c"}
