"""Loads /repo's modules from their current source into a symbolic world.

The source is parsed and compiled as it is, except that calls of a few
builtins (float, int, isinstance, min, ...) and string formatting with % go
through helpers which behave identically on ordinary values and know about
symbolic ones.
"""
import ast
import builtins
import os
import sys
import types
import weakref

import numpy as rnp

from . import arr, core, shims
from .core import S, SBool, Unsupported, is_sym, to_s

REPO = os.environ.get("PXMCMC_REPO", "/repo")
HOOKED = {"float", "int", "complex", "isinstance", "min", "max", "abs", "sum", "round", "print", "type", "pow", "str", "repr",
          "bool", "len", "format", "issubclass", "divmod", "id", "hash"}


class _Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in HOOKED:
            return ast.copy_location(ast.Call(
                func=ast.copy_location(ast.Name("__sx_call__", ast.Load()), node),
                args=[node.func] + node.args, keywords=node.keywords), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or (
                isinstance(node.left, ast.Constant) and isinstance(node.left.value, str))):
            return ast.copy_location(ast.Call(
                func=ast.copy_location(ast.Name("__sx_fmt__", ast.Load()), node),
                args=[node.left, node.right], keywords=[]), node)
        return node


def _one(x):
    if isinstance(x, arr.SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return x.reshape(-1)[0]
    return x


def sx_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sx_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(sx_isinstance(x, u) for u in t.__args__)
    if isinstance(x, S):
        if t is float:
            return x.kind == "f"
        if t is int:
            return x.kind == "i"
        if t is complex:
            return x.kind == "c"
        if t in (bool, str, list, tuple, dict):
            return False
        import numbers
        if t is numbers.Number or t is numbers.Complex:
            return True
        if t is numbers.Real:
            return x.kind != "c"
        if t is numbers.Integral or t is numbers.Rational:
            return x.kind == "i"
        if isinstance(t, shims._ScalarMeta):
            # values handed in by the harness are Python numbers
            return False if t._np not in (rnp.number, rnp.generic, rnp.floating, rnp.inexact) else x.kind != "i"
        return isinstance(x, t)
    if isinstance(x, SBool):
        return t is bool or t is int or isinstance(x, t)
    return isinstance(x, t)


class Ids:
    """Identities of arrays: that of a dead one goes to the next one made, as it may in reality."""

    def __init__(self):
        self.live, self.free, self.n = {}, [], 1 << 40

    def of(self, x):
        k = id(x)
        if k not in self.live:
            if not self.free:
                self.n += 64
                self.free.append(self.n)
            self.live[k] = (self.free.pop(), weakref.ref(x, lambda r, k=k: self.drop(k)))
        return self.live[k][0]

    def drop(self, k):
        if k in self.live:
            self.free.append(self.live.pop(k)[0])


IDS = Ids()


def sx_call(f, *a, **k):
    if f is isinstance:
        return sx_isinstance(*a)
    if f is hash and len(a) == 1 and isinstance(a[0], arr.SymBytes):
        return a[0]         # no two byte strings at hand share a hash by accident
    if f is id and len(a) == 1 and isinstance(a[0], arr.SymArray):
        return IDS.of(a[0])
    if f is print:
        for x in a:
            if isinstance(x, str):
                continue
        return None
    if not (a and (shims.involves(a) or (f in (sum, min, max) and not isinstance(a[0], (str, bytes))))):
        return f(*a, **k)
    if f is float:
        x = _one(a[0])
        if is_sym(x):
            x = to_s(x)
            if x.kind == "c":
                raise TypeError("can't convert complex to float")
            return S(x.re) if not x.isnan_ else x
        return float(x)
    if f is complex:
        xs = [_one(x) for x in a]
        if any(is_sym(x) for x in xs):
            r = to_s(xs[0]) + (to_s(xs[1]) * 1j if len(xs) > 1 else 0)
            return S(r.re, r.im if r.im is not None else core.Poly({}))
        return complex(*xs)
    if f is int:
        x = _one(a[0])
        if isinstance(x, SBool):
            return int(bool(x))
        if is_sym(x):
            x = to_s(x)
            if x.isnan_:
                raise ValueError("cannot convert float NaN to integer")
            if x.kind == "c":
                raise TypeError("can't convert complex to int")
            return core.s_trunc(x)
        return int(x)
    if f in (min, max) and not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in xs) and xs:
            m = xs[0]
            for x in xs[1:]:
                # Python keeps the first of equal items
                m = core.ite(to_s(x) < to_s(m), x, m) if f is min else core.ite(to_s(x) > to_s(m), x, m)
            return m
        return f(xs)
    if f is round:
        x = _one(a[0])
        if is_sym(x):
            if to_s(x).kind == "i":
                return x
            if len(a) == 2 and isinstance(a[1], int) and to_s(x).im is None:
                f = 10 ** a[1] if a[1] >= 0 else core.Fraction(1, 10 ** -a[1])
                return core.S((_half_even(to_s(x) * to_s(f)) / to_s(f)).re)
            if len(a) == 1:
                return _half_even(to_s(x))
            raise Unsupported("round() to decimals of a symbolic value")
        return round(x, *a[1:])
    if f is type and len(a) == 1 and isinstance(a[0], S):
        return {"i": int, "f": float, "c": complex}[a[0].kind]
    if f is type and len(a) == 1 and isinstance(a[0], arr.SymArray):
        return rnp.ndarray
    return f(*a, **k)


from fractions import Fraction
Fraction_half = Fraction(1, 2)


def _half_even(x):
    if x.re.is_const():
        return S(to_s(round(x.re.const_value())).re, kind="i")
    fl = core.s_floor(x)
    d = x - fl
    ev = (fl % 2) == 0
    return core.ite(d < Fraction_half, fl, core.ite(d > Fraction_half, fl + 1, core.ite(ev, fl, fl + 1)))


def sx_fmt(s, args):
    if shims.involves(args):
        return "<formatted>"
    return s % args


class Loader:
    def __init__(self, extra=None, repo=None):
        shims.install()
        self.repo = repo or REPO
        self.mods = {}
        self.extra = extra or {}
        self.code = {}

    def _path(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            p = self.load(parent)
            setattr(p, leaf, m)
        b = dict(vars(builtins))
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        m.__dict__["__sx_call__"] = sx_call
        m.__dict__["__sx_fmt__"] = sx_fmt
        code = compiled(path)
        exec(code, m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        top = name.split(".")[0]
        if name in self.extra:
            return self.extra[name] if fromlist or "." not in name else self.extra.get(top, self.extra[name])
        if top == "pxmcmc":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._path(f"{name}.{f}")[0]:
                        self.load(f"{name}.{f}")
                return m
            return self.mods[top] if top in self.mods else self.load(top)
        if name in shims.MODS:
            if fromlist:
                m = shims.MODS[name]
                for f in fromlist:
                    sub = shims.MODS.get(f"{name}.{f}")
                    if sub is not None and f not in getattr(m, "__dict__", {}):
                        try:
                            setattr(m, f, sub)
                        except Exception:
                            pass
                return m
            return shims.MODS[top]
        if top in shims.MODS and top not in ("math", "random"):
            raise Unsupported(f"module {name}")
        return builtins.__import__(name, globals, locals, fromlist, 0)


_CODE = {}


def compiled(path):
    if path not in _CODE:
        with open(path) as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = _Rewrite().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            _CODE[path] = compile(tree, path, "exec")
    return _CODE[path]


# -- which functions of the repository ran -----------------------------------
EXECUTED = set()


def start_monitor():
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    root = os.path.join(REPO, "pxmcmc") + os.sep

    def cb(code, off):
        fn = code.co_filename
        if fn.startswith(root) and not code.co_name.startswith("<"):
            EXECUTED.add(fn[len(root):-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, cb)
    mon.set_events(tool, mon.events.PY_START)
