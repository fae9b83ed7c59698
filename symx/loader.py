"""Loads the package under test from /repo's current source for symbolic
execution.  The source is compiled unchanged except for two observation hooks
inserted in the AST: a tick at the start of every loop body (bounds
non-terminating paths) and a record of each function entered (evidence)."""
import ast
import builtins
import importlib
import inspect
import os
import sys
import textwrap
import types
import numpy as _np
from . import engine as E
from . import snp
from . import vfs

REPO = os.environ.get("DANY_REPO", "/repo")


class _Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def _tick(self, node):
        return ast.copy_location(ast.Expr(ast.Call(
            ast.Name("__sx_tick__", ast.Load()), [], [])), node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick(node.body[0]))
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick(node.body[0]))
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        name = ".".join(self.stack)
        self.stack.pop()
        st = ast.copy_location(ast.Expr(ast.Call(
            ast.Name("__sx_enter__", ast.Load()), [ast.Constant(name)], [])),
            node.body[0])
        i = 0
        if isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant) and isinstance(
                node.body[0].value.value, str):
            i = 1
        node.body.insert(i, st)
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


def _tick():
    E.ENG.tick()


def _enter(name):
    E.ENG.fns.add(name)
    E.ENG.tick()


# --------------------------------------------------------------- foreign code
def to_native(x):
    """argument for code that is not executed symbolically (flopy)"""
    if isinstance(x, GridProxy):
        return object.__getattribute__(x, "_g")
    if isinstance(x, snp.SArray):
        r = snp.raw(x)
        o = _np.empty(r.shape, object)
        for ix in _np.ndindex(*r.shape):
            o[ix] = to_native(r[ix])
        return _np.array(o.tolist(), dtype=x.dtype).reshape(r.shape)
    t = type(x)
    if t is E.SNum:
        if x.isint:
            return E.ENG.concretize(x)
        raise E.PathAbort("symbolic real passed to foreign code")
    if t is E.SBool:
        return bool(x)
    if t is list:
        return [to_native(y) for y in x]
    if t is tuple:
        return tuple(to_native(y) for y in x)
    if t is dict:
        return {to_native(k): to_native(v) for k, v in x.items()}
    return snp._native(x)


def from_native(x):
    if isinstance(x, _np.ndarray) and not isinstance(x, snp.SArray):
        return snp.wrap(x)
    if type(x) is tuple:
        return tuple(from_native(y) for y in x)
    if type(x) is list and any(isinstance(y, _np.ndarray) for y in x):
        return [from_native(y) for y in x]
    return x


class Foreign:
    """lazy proxy of a module/class whose callables run natively"""

    def __init__(self, obj):
        self.__dict__["_o"] = obj

    def __getattr__(self, k):
        v = getattr(self.__dict__["_o"], k)
        if isinstance(v, types.ModuleType):
            return Foreign(v)
        if inspect.isclass(v):
            if issubclass(v, BaseException):
                return v
            return Foreign(v)
        if callable(v):
            return _foreign_fn(v)
        return from_native(v)

    def __call__(self, *a, **k):
        return self._o(*[to_native(x) for x in a],
                       **{n: to_native(v) for n, v in k.items()})

    def __instancecheck__(self, x):
        return isinstance(x, self._o)


_SHIMMED = {}


def _foreign_fn(f):
    key = getattr(f, "__qualname__", "")
    if key == "UnstructuredPlotUtilities.irregular_shape_patch":
        return _shimmed(f)

    def g(*a, **k):
        return from_native(f(*[to_native(x) for x in a],
                             **{n: to_native(v) for n, v in k.items()}))
    return g


def _shimmed(f):
    """a small pure foreign function, executed symbolically as well"""
    key = f.__qualname__
    if key not in _SHIMMED:
        src = textwrap.dedent(inspect.getsource(f))
        src = src[src.index("def "):]
        ns = {"np": snp.NP, "__builtins__": _builtins(None)}
        exec(compile(src, f"<{key}>", "exec"), ns)
        _SHIMMED[key] = ns[f.__name__]
    return _SHIMMED[key]


class GridProxy:
    """wraps a flopy grid: arrays it returns become SArray, arguments become
    native; assignments (modelgrid._top = ...) stay on the proxy"""

    def __init__(self, g, overrides=None):
        object.__setattr__(self, "_g", g)
        object.__setattr__(self, "_ov", dict(overrides or {}))

    def __getattribute__(self, k):
        if k in ("__class__",):
            return type(object.__getattribute__(self, "_g"))
        g = object.__getattribute__(self, "_g")
        ov = object.__getattribute__(self, "_ov")
        if k in ov:
            v = ov[k]
            return v() if isinstance(v, _Lazy) else v
        if k == "top" and "_top" in ov:
            return ov["_top"].copy()
        v = getattr(g, k)
        if inspect.ismethod(v) or inspect.isfunction(v):
            return _foreign_fn(v)
        return from_native(v)

    def __setattr__(self, k, v):
        object.__getattribute__(self, "_ov")[k] = v

    def __deepcopy__(self, memo):
        import copy
        return GridProxy(copy.deepcopy(object.__getattribute__(self, "_g")),
                         object.__getattribute__(self, "_ov"))


class _Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


# --------------------------------------------------------------- importing
def _builtins(pkg):
    b = dict(builtins.__dict__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if pkg is not None:
            base = None
            if level > 0:
                gname = (globals or {}).get("__package__") or pkg.name
                parts = gname.split(".")
                parts = parts[:len(parts) - (level - 1)]
                base = ".".join(parts + ([name] if name else []))
            elif name == pkg.name or name.startswith(pkg.name + "."):
                base = name
            if base is not None:
                m = pkg.load(base)
                for f in fromlist or ():
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, pkg.load(base + "." + f))
                        except ModuleNotFoundError:
                            pass
                if fromlist:
                    return m
                return pkg.load(pkg.name) if level == 0 else m
        top = name.split(".")[0]
        if top == "numpy":
            if "." in name and fromlist:
                o = snp.NP
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
                return Foreign(o) if isinstance(o, types.ModuleType) else o
            return snp.NP
        if name in ("pickle", "_pickle", "cPickle"):
            return vfs.PICKLE
        if name == "heapq":
            return snp.HEAPQ
        if name == "math":
            return snp.MATH
        if top in ("flopy", "scipy", "pandas", "shapely", "networkx"):
            m = importlib.import_module(name)
            for f in fromlist or ():
                try:
                    importlib.import_module(name + "." + f)
                except ImportError:
                    pass
            return Foreign(m if fromlist else importlib.import_module(top))
        return builtins.__import__(name, globals, locals, fromlist, level)

    b["__import__"] = imp
    b["open"] = vfs.v_open
    b["int"] = snp.ShimInt
    b["float"] = snp.ShimFloat
    b["bool"] = snp.ShimBool
    b["min"] = snp.b_min
    b["max"] = snp.b_max
    b["sum"] = snp.b_sum
    b["isinstance"] = snp.b_isinstance
    b["print"] = lambda *a, **k: None
    b["__sx_tick__"] = _tick
    b["__sx_enter__"] = _enter
    return b


class Package:
    """the package under test, loaded from source under the shim"""

    def __init__(self, repo=None, name="dany"):
        self.repo = repo or REPO
        self.name = name
        self.mods = {}
        self.b = _builtins(self)

    def _path(self, modname):
        p = os.path.join(self.repo, *modname.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, modname):
        if modname in self.mods:
            return self.mods[modname]
        path, ispkg = self._path(modname)
        if not os.path.exists(path):
            raise ModuleNotFoundError(modname)
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = _Instr(modname).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("symx_" + modname)
        m.__dict__["__builtins__"] = self.b
        m.__dict__["__package__"] = modname if ispkg else modname.rpartition(".")[0]
        m.__dict__["__name__"] = modname
        m.__file__ = path
        self.mods[modname] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        if "." in modname:
            par, _, leaf = modname.rpartition(".")
            if par in self.mods:
                setattr(self.mods[par], leaf, m)
        return m


def functions_in(repo=None):
    """all function names of the package (for the coverage report)"""
    repo = repo or REPO
    out = []
    d = os.path.join(repo, "dany")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(d, fn)).read())

        def rec(node, pre):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    if isinstance(c, ast.FunctionDef):
                        out.append(pre + "." + c.name)
                    rec(c, pre + "." + c.name)
                else:
                    rec(c, pre)
        rec(tree, "dany." + fn[:-3] if fn != "__init__.py" else "dany")
    return out
