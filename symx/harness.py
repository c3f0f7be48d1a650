"""Harness runtime: the same harness function runs symbolically (all paths,
assertions decided by the solver) and concretely (replay against the imported,
unmodified package)."""
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

import numpy as rnp
import z3

from . import arr, core, loader, shims
from .arr import SymArray, asarray
from .core import Budget, PathEnd, Poly, S, SBool, STATS, Unsupported, b_all, is_sym, to_s

REPO = loader.REPO
BOX = 8


class NonTermination(Exception):
    pass


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


def _decode(x):
    return x


# ---------------------------------------------------------------------------
class Base:
    warmer = None

    def __init__(self, cfg):
        self.cfg = cfg
        self.calls = {}

    def guard(self, name, limit):
        """Counts calls made by the code under check; too many = it does not terminate."""
        self.calls[name] = self.calls.get(name, 0) + 1
        if self.calls[name] > limit:
            raise NonTermination(f"{name} called more than {limit} times")

    def vec(self, name, n, cplx=False, **k):
        return self.array(name, (n,), cplx, **k)

    def mat(self, name, n, m, cplx=False, **k):
        return self.array(name, (n, m), cplx, **k)

    def choose(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def flag(self, name):
        return bool(self.int(name, 0, 1).__index__())


class SymH(Base):
    mode = "sym"

    def __init__(self, cfg, ctx, runner, extra=None):
        super().__init__(cfg)
        self.c = ctx
        self.runner = runner
        self.np = shims.NP
        self.loader = loader.Loader(extra)
        self.oracles = {}
        self.log = []
        self.names = set()

    # inputs ---------------------------------------------------------------
    def _atom(self, name, sort="R", lo=None, hi=None, pos=False, nonneg=False):
        if name in self.names:
            raise RuntimeError("duplicate input " + name)
        self.names.add(name)
        a = self.c.new_atom(name, sort, base=True)
        a.lo, a.hi = lo, hi
        if pos or (lo is not None and lo > 0):
            a.pos = True
        elif nonneg or (lo is not None and lo >= 0):
            a.nonneg = True
        return a

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        return S(Poly.atom(self._atom(name, "R", lo, hi, pos, nonneg)))

    def int(self, name, lo, hi):
        return S(Poly.atom(self._atom(name, "I", lo, hi)), kind="i")

    def cplx(self, name, **k):
        return S(Poly.atom(self._atom(name + ".re", **k)), Poly.atom(self._atom(name + ".im", **k)))

    def array(self, name, shape, cplx=False, **k):
        a = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            n = name + "".join(f"_{j}" for j in i)
            a[i] = self.cplx(n, **k) if cplx else self.real(n, **k)
        return SymArray(a, complex if cplx else float)

    def const(self, x, dtype=None):
        return asarray(rnp.array(x, dtype=dtype)) if not arr.has_sym(x) else asarray(x, dtype)

    def sparse(self, dense, fmt="csr"):
        return shims.SymSparse(dense, fmt)

    def seq(self, xs, dtype=None):
        return asarray(list(xs), dtype)

    def dense(self, x):
        return x.toarray() if hasattr(x, "symsparse") else asarray(x)

    # code under check --------------------------------------------------------
    def mod(self, name):
        m = self.loader.load("pxmcmc." + name)
        if self.warmer:
            self.warmer.patch(self.loader.mods)
        return m

    def lib(self, name):
        return shims.MODS[name]

    def assume(self, cond):
        if isinstance(cond, SymArray):
            cond = b_all(cond.raw.flat)
        self.c.assume(cond)

    def is_true(self, cond):
        """Fork on a condition (harness-level case split)."""
        return bool(cond)

    def oracle(self, name, nout, cplx=False, lo=None, hi=None, scalar=False, pos=False):
        o = SymOracle(self, name, nout, cplx, lo, hi, scalar, pos)
        self.oracles[name] = o
        return o

    def draws(self, tag):
        return [S(Poly.atom(a)) for a, t in self.c.draws if t == tag]

    def draw_tags(self):
        """The kinds of the draws made, in order."""
        return [t for _, t in self.c.draws]

    def rewind(self):
        """Restart the random stream: the next draws repeat the first ones."""
        self.c.rng.clear()

    def fix_uniform(self, v):
        """All uniform draws have this value from now on."""
        self.c.fixed_uniform = v

    def fix_normal(self, upto=True):
        """Normal draws are numbers from now on, up to the given one."""
        self.c.fixed_normal = upto

    def numbers(self):
        """The normal draws that were numbers."""
        return list(self.c.numbers)

    def ndraws(self, tag):
        return self.c.rng.get({"normal": "rn", "uniform": "ru", "laplace": "rl"}[tag], 0)

    # assertions -------------------------------------------------------------
    def eq(self, label, a, b, tol=None, scale=1.0):
        a_, b_ = _arr(a), _arr(b)
        if a_.shape != b_.shape:
            self.runner.refute(self, label, f"shapes {a_.shape} and {b_.shape} differ", None)
            return
        self.log.append((label, a_))
        self.runner.prove_eq(self, label, a_, b_, tol, scale)

    def true(self, label, cond):
        if isinstance(cond, SymArray):
            cond = b_all(cond.raw.flat)
        if isinstance(cond, S):
            cond = core.as_bool(cond)
        self.runner.prove(self, label, cond)

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.runner.count_trivial()
            return
        except (PathEnd, Budget, Unsupported):
            raise
        except Exception as e:
            self.runner.refute(self, label, f"raised {type(e).__name__}: {e}", None)
            return
        self.runner.refute(self, label, "no exception raised", None)

    def fail(self, label, why):
        self.runner.refute(self, label, why, None)

    def linear(self, x, tag="normal"):
        """(rest, coefficients) of an expression affine in the random draws of `tag`."""
        ids = {a.id: k for k, (a, t) in enumerate(self.c.draws) if t == tag}
        x = to_s(x)
        out = []
        for p in ((x.re,) if x.im is None else (x.re, x.im)):
            rest, co = {}, {}
            for m, c in p.t.items():
                hit = [(a, e) for a, e in m if a in ids]
                if not hit:
                    rest[m] = c
                elif len(hit) == 1 and hit[0][1] == 1:
                    r = tuple(t for t in m if t[0] != hit[0][0])
                    co.setdefault(ids[hit[0][0]], {})[r] = c
                else:
                    return None
            for m in rest:
                for a, _ in m:
                    if self._depends(a, ids):
                        return None
            out.append((S(Poly(rest)), {k: S(Poly(v)) for k, v in co.items()}))
        return out

    def _depends(self, a, ids):
        seen, todo = set(), [a]
        while todo:
            i = todo.pop()
            if i in ids:
                return True
            if i in seen:
                continue
            seen.add(i)
            at = self.c.tab[i]
            if at.tag == "oracle":
                continue
            todo += list(at.deps)
        return False


def _arr(x):
    if hasattr(x, "symsparse"):
        return x.toarray()
    return asarray(x)


class SymOracle:
    """An arbitrary function supplied by the user of the package."""

    def __init__(self, h, name, nout, cplx, lo, hi, scalar, pos=False):
        self.h, self.name, self.nout, self.cplx, self.lo, self.hi, self.scalar = h, name, nout, cplx, lo, hi, scalar
        self.table = []
        self.ncalls = 0
        self.pos = pos

    def __call__(self, x):
        self.h.guard(self.name, 2500)
        self.ncalls += 1
        return self.lookup(x)

    def lookup(self, x):
        x = asarray(x)
        els = [to_s(e) for e in x.raw.reshape(-1)]
        if any(e.isnan_ for e in els):
            raise Unsupported("NaN passed to a user function")
        key = tuple((e.re.key(), e.im.key() if e.im is not None and e.im.t else None) for e in els)
        for k, args, out in self.table:
            if k == key or (len(args) == len(els) and all(_close(x, y) for x, y in zip(args, els))):
                return self._ret(out)
        c = self.h.c
        w = c.witness()
        env = c.evaluator(w) if w is not None else None
        cand = []
        for k, args, out in self.table:
            if len(args) != len(els) or _const_diff(args, els):
                continue
            if env is None or _num_equal(env, args, els):
                dz, at = _neq(els, args)
                r, _ = core.run_solver(c.closure(at) + [dz], 3000)
                if r == "unsat":
                    self.table.append((key, els, out))
                    return self._ret(out)
            cand.append((args, out))
        n = len(self.table)
        out = []
        argatoms = set()
        for e in els:
            argatoms |= e.atoms()
        for i in range(1 if self.scalar else self.nout):
            parts = []
            for p in (("re", "im") if self.cplx else ("",)):
                a = c.new_atom(f"{self.name}@{n}_{i}{p}", base=True)
                a.lo = None if self.lo is None else Fraction(self.lo)
                a.hi = None if self.hi is None else Fraction(self.hi)
                a.tag = "oracle"
                if self.pos or (a.lo is not None and a.lo > 0):
                    a.pos = True
                elif a.lo is not None and a.lo >= 0:
                    a.nonneg = True
                parts.append(Poly.atom(a))
            out.append(S(*parts))
        for args, o in cand:
            c.lazy.append((els, args, out, o))
        self.table.append((key, els, out))
        return self._ret(out)

    def _ret(self, out):
        if self.scalar:
            return out[0]
        return arr.wrap_list(list(out), (len(out),), complex if self.cplx else float)

    def numeric(self, env):
        tab = []
        for _, args, out in self.table:
            tab.append([[_num(e.ev(env)) for e in args], [_num(e.ev(env)) for e in out]])
        return tab


def _const_diff(xs, ys):
    """Two lists of scalars that differ by a non-zero constant somewhere."""
    z = Poly({})
    for x, y in zip(xs, ys):
        for p, q in ((x.re, y.re), (x.im or z, y.im or z)):
            d = p.sub(q)
            if d.is_const() and d.const_value():
                return True
    return False


def _congruence(els, args, out, o):
    """args equal => results equal, with the atoms involved and those of the results."""
    c = core.ctx()
    dz, at = _neq(els, args)
    z = Poly({})
    same = z3.And(*[p.z(c.tab) == q.z(c.tab) for a, b in zip(out, o) for p, q in ((a.re, b.re), (a.im or z, b.im or z))])
    oat = set()
    for a, b in zip(out, o):
        oat |= a.atoms() | b.atoms()
    return z3.Or(dz, same), at | oat


def _num_equal(env, xs, ys):
    try:
        return all(abs(x.ev(env) - y.ev(env)) <= 1e-9 * (1 + abs(x.ev(env))) for x, y in zip(xs, ys))
    except (ArithmeticError, ValueError):
        return True


def _close(x, y):
    """Same polynomial up to the rounding of floating-point constants."""
    z = Poly({})
    for p, q in ((x.re, y.re), (x.im if x.im is not None else z, y.im if y.im is not None else z)):
        if p.key() == q.key():
            continue
        big = max([abs(float(v)) for v in p.t.values()] + [abs(float(v)) for v in q.t.values()] + [0.0])
        for v in p.sub(q).t.values():
            if abs(float(v)) > 1e-11 * big:
                return False
    return True


def _num(v):
    return [v.real, v.imag] if isinstance(v, complex) else float(v)


def _neq(xs, ys):
    """z3 condition that two lists of scalars differ, and its atoms."""
    c = core.ctx()
    t = c.tab
    parts, at = [], set()
    for x, y in zip(xs, ys):
        for p, q in ((x.re, y.re), (x.im or Poly({}), y.im or Poly({}))):
            d = p.sub(q)
            if d.is_const():
                if d.const_value():
                    return None, None     # always different
                continue
            parts.append(d.z(t) != 0)
            at |= d.atoms()
    if not parts:
        return z3.BoolVal(False), at
    return z3.Or(*parts), at


# ---------------------------------------------------------------------------
class ConcH(Base):
    mode = "conc"

    def __init__(self, cfg, values, tables=None, extra=None):
        super().__init__(cfg)
        self.values = values
        self.tables = tables or {}
        self.np = rnp
        self.failures = []
        self.log = []
        self.used = {}
        self._draws = {"normal": [], "uniform": [], "laplace": []}
        self._tags = []
        self._names = {"normal": set(), "uniform": set(), "laplace": set()}
        self._rep = {"normal": 0, "uniform": 0, "laplace": 0}
        self.violated_assumption = False
        self.rng, self.fixed_uniform, self.fixed_normal = {}, None, False

    def _val(self, name, lo, hi, pos, nonneg, sort="R"):
        v = self.values.get(name)
        if v is None:
            a = core.Atom(0, name, sort)
            a.lo, a.hi, a.pos, a.nonneg = lo, hi, pos, nonneg
            v = core.default_value(a)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        return float(self._val(name, lo, hi, pos, nonneg))

    def int(self, name, lo, hi):
        return int(self._val(name, lo, hi, False, False, "I"))

    def cplx(self, name, **k):
        return complex(self.real(name + ".re", **k), self.real(name + ".im", **k))

    def array(self, name, shape, cplx=False, **k):
        a = rnp.empty(shape, dtype=complex if cplx else float)
        for i in rnp.ndindex(*shape):
            n = name + "".join(f"_{j}" for j in i)
            a[i] = self.cplx(n, **k) if cplx else self.real(n, **k)
        return a

    def const(self, x, dtype=None):
        return rnp.array(x, dtype=dtype)

    def seq(self, xs, dtype=None):
        return rnp.array(list(xs), dtype=dtype)

    def sparse(self, dense, fmt="csr"):
        from scipy import sparse
        return getattr(sparse, fmt + "_matrix")(dense)

    def dense(self, x):
        return x.toarray() if hasattr(x, "toarray") else rnp.asarray(x)

    def mod(self, name):
        m = importlib.import_module("pxmcmc." + name)
        if self.warmer:
            self.warmer.patch(sys.modules)
        return m

    def lib(self, name):
        return importlib.import_module(name)

    def assume(self, cond):
        if not bool(rnp.all(cond)):
            self.violated_assumption = True
            raise PathEnd()

    def is_true(self, cond):
        return bool(cond)

    def oracle(self, name, nout, cplx=False, lo=None, hi=None, scalar=False, pos=False):
        return ConcOracle(self, name, nout, cplx, lo, hi, scalar, self.tables.get(name, []), pos)

    def draws(self, tag):
        return list(self._draws[tag])

    def draw_tags(self):
        return list(self._tags)

    def rewind(self):
        self.rng.clear()
        self._tags = []
        for k in self._draws:
            self._draws[k] = []
            self._names[k] = set()
            self._rep[k] = 0

    def repeats(self, tag):
        """How many draws repeated an earlier one (a generator started anew with the same seed)."""
        return self._rep[tag]

    def fix_uniform(self, v):
        self.fixed_uniform = v

    def fix_normal(self, upto=True):
        self.fixed_normal = upto

    def numbers(self):
        return list(self._draws["normal"])

    def ndraws(self, tag):
        return len(self._draws[tag])

    def _draw(self, tag, n):
        v = self.values.get(n)
        if tag == "uniform" and self.fixed_uniform is not None:
            v = self.fixed_uniform
        if tag == "normal" and self.fixed_normal:
            x = core.numbered_draw(n, self.fixed_normal)
            v = v if x is None else x
        if v is None:
            x = int(hashlib.md5(n.encode()).hexdigest()[:8], 16) / 2 ** 32
            v = x if tag == "uniform" else 2.6 * x - 1.3
        if tag == "uniform":
            v = min(max(v, 1e-12), 1 - 1e-12)
        self._draws[tag].append(v)
        self._tags.append(tag)
        self._rep[tag] += n in self._names[tag]
        self._names[tag].add(n)
        return float(v)

    def eq(self, label, a, b, tol=None, scale=1.0):
        a, b = self.dense(a), self.dense(b)
        if a.shape != b.shape:
            self.failures.append((label, f"shapes {a.shape} and {b.shape} differ"))
            raise Violation(*self.failures[-1])
        self.log.append((label, a))
        if a.size == 0:
            return
        a = a.astype(complex)
        b = b.astype(complex)
        lim = (tol if tol is not None else 1e-7) * max(1.0, scale, float(rnp.abs(a).max()) if rnp.all(rnp.isfinite(a)) else 1.0)
        bad = ~(rnp.abs(a - b) <= lim)
        if bad.any():
            i = tuple(int(j) for j in rnp.argwhere(bad)[0]) if a.ndim else ()
            self.failures.append((label, f"at {i}: got {a[i]!r}, expected {b[i]!r}"))
            raise Violation(*self.failures[-1])

    def true(self, label, cond):
        if not bool(rnp.all(cond)):
            self.failures.append((label, "condition is false"))
            raise Violation(*self.failures[-1])

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return
        except (PathEnd, Budget):
            raise
        except Exception as e:
            self.failures.append((label, f"raised {type(e).__name__}: {e}"))
            raise Violation(*self.failures[-1])
        self.failures.append((label, "no exception raised"))
        raise Violation(*self.failures[-1])

    def fail(self, label, why):
        self.failures.append((label, why))
        raise Violation(label, why)

    def linear(self, x, tag="normal"):
        raise RuntimeError("symbolic only")


class ConcOracle:
    def __init__(self, h, name, nout, cplx, lo, hi, scalar, table, pos=False):
        self.h, self.name, self.nout, self.cplx, self.scalar = h, name, nout, cplx, scalar
        self.lo, self.hi = lo, hi
        self.pos = pos
        self.table = [(rnp.array([_cx(v) for v in a]), rnp.array([_cx(v) for v in o])) for a, o in table]
        self.ncalls = 0

    def __call__(self, x):
        self.h.guard(self.name, 2500)
        self.ncalls += 1
        return self.lookup(x)

    def lookup(self, x):
        v = rnp.asarray(x).reshape(-1).astype(complex)
        out = None
        for a, o in self.table:
            if a.shape == v.shape and (v.size == 0 or rnp.abs(a - v).max() <= 1e-6 * (1 + rnp.abs(v).max())):
                out = o
                break
        if out is None:
            n = 1 if self.scalar else self.nout
            sd = sum(map(ord, self.name)) % 13
            k = rnp.arange(1, v.size + 1)
            s = float((v.real * k * 0.71).sum() + (v.imag * k * 0.37).sum())
            out = rnp.array([math.sin(s + 1.1 * i + sd) + (1j * math.cos(0.8 * s + 0.7 * i) if self.cplx else 0) for i in range(n)])
            if self.lo is not None or self.pos:
                lo = float(self.lo or 0)
                hi = lo + 2 if self.hi is None else float(self.hi)
                out = lo + (hi - lo) * (out.real + 1.0001) / 2.0002 + 0j
            self.table.append((v, out))
        if not self.cplx:
            out = out.real
        return (complex(out[0]) if self.cplx else float(out[0])) if self.scalar else out.copy()


def _cx(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else complex(v)


@contextlib.contextmanager
def patched_env(h):
    """Randomness and uninitialised memory of the real package come from the counterexample."""
    import scipy.stats as st
    rng = shims.Random(h._draw, lambda vals, shape: rnp.array(vals, dtype=float).reshape(shape), lambda: h.rng)
    rng._log = rnp.log
    saved = []

    def put(obj, name, val):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)
    names = ["randn", "standard_normal", "normal", "rand", "random", "random_sample", "sample", "ranf", "uniform", "laplace",
             "exponential", "standard_exponential", "seed", "default_rng", "RandomState", "get_state", "set_state"]
    for n in names:
        if hasattr(rnp.random, n):
            put(rnp.random, n, getattr(rng, n))
    for nm in ("laplace", "norm", "uniform"):
        d = getattr(st, nm)
        tag = {"laplace": "laplace", "norm": "normal", "uniform": "uniform"}[nm]

        def rvs(*a, loc=0, scale=1, size=None, random_state=None, tag=tag):
            loc = a[0] if len(a) > 0 else loc
            scale = a[1] if len(a) > 1 else scale
            size = a[2] if len(a) > 2 else size
            return rng.default_rng(random_state)._gen(tag, size) * scale + loc
        had = "rvs" in d.__dict__
        old = d.__dict__.get("rvs")
        d.rvs = rvs
        saved.append((d, "rvs", (had, old)))
    import random as rr
    put(rr, "random", lambda: rng._draw("uniform"))
    put(rr, "gauss", lambda mu=0.0, sigma=1.0: mu + sigma * rng._draw("normal"))
    real_empty, real_el = rnp.empty, rnp.empty_like
    cnt = [0]

    def garbage(a):
        if a.dtype.kind in "fc" and a.size <= 400:
            f = a.reshape(-1)
            for i in range(f.size):
                vs = []
                for _ in range(2 if a.dtype.kind == "c" else 1):
                    n = f"uninit_{cnt[0]}"
                    cnt[0] += 1
                    v = h.values.get(n)
                    vs.append(0.7319 + 0.01 * (cnt[0] % 17) if v is None else v)
                f[i] = complex(*vs) if len(vs) == 2 else vs[0]
            return f.reshape(a.shape)
        return a

    root = os.path.join(REPO, "pxmcmc") + os.sep

    def empty(*a, **k):
        r = real_empty(*a, **k)
        if sys._getframe(1).f_code.co_filename.startswith(root):
            return garbage(r)
        return r

    def empty_like(*a, **k):
        r = real_el(*a, **k)
        if sys._getframe(1).f_code.co_filename.startswith(root):
            return garbage(r)
        return r
    put(rnp, "empty", empty)
    put(rnp, "empty_like", empty_like)
    try:
        with contextlib.redirect_stdout(io.StringIO()), rnp.errstate(all="ignore"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
    finally:
        for obj, name, val in reversed(saved):
            if name == "rvs":
                if val[0]:
                    obj.rvs = val[1]
                else:
                    del obj.__dict__["rvs"]
            else:
                setattr(obj, name, val)


def _alarm(sig, frame):
    raise NonTermination("the run did not finish in time")


@contextlib.contextmanager
def alarm(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_concrete(fn, cfg, values, tables, seconds=20):
    """Run the harness on the real package. Returns (failure or None, ConcH)."""
    h = ConcH(cfg, values, tables)
    for m in [m for m in sys.modules if m == "pxmcmc" or m.startswith("pxmcmc.")]:
        del sys.modules[m]          # no state left from an earlier run
    try:
        with patched_env(h), alarm(seconds):
            call(fn, h)
    except PathEnd:
        return "assumption", h
    except Violation as v:
        return (v.label, v.detail), h
    except NonTermination as e:
        return ("termination", str(e)), h
    except Unsupported as e:
        return "assumption", h
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = next((f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in reversed(tb) if "/pxmcmc/" in f.filename), "")
        return ("unexpected exception", f"{type(e).__name__}: {e} ({where})"), h
    return None, h


# -- history -------------------------------------------------------------------
class WarmEnd(Exception):
    pass


class Warm:
    """A harness handle whose inputs are numbers and whose assertions do nothing: it runs the operations of a harness so
    that the symbolic run that follows starts from a used package, not a fresh one."""

    def __init__(self, h, cfg, salt):
        self._h, self.cfg, self._salt = h, cfg, salt

    def __getattr__(self, n):
        return getattr(self._h, n)

    def _num(self, name, sort="R", lo=None, hi=None, pos=False, nonneg=False):
        import random
        import zlib
        a = core.Atom(0, name, sort)
        a.lo, a.hi, a.pos, a.nonneg = lo, hi, pos, nonneg
        rnd = random.Random(zlib.crc32(f"{self._salt} {name}".encode()))
        if sort == "I":
            return rnd.randint(lo, hi)
        v = round(core.random_value(a, rnd) * 256) / 256
        return max(v, 1 / 256) if pos or (lo is not None and lo >= 0 and v <= 0) else v

    def _lift(self, v):
        return v if self._h.mode == "conc" else to_s(v)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        return self._lift(self._num(name, "R", lo, hi, pos, nonneg))

    def int(self, name, lo, hi):
        return self._num(name, "I", lo, hi)

    def cplx(self, name, **k):
        return self._lift(complex(self._num(name + ".re", **k), self._num(name + ".im", **k)))

    def array(self, name, shape, cplx=False, **k):
        a = rnp.empty(shape, dtype=complex if cplx else float)
        for i in rnp.ndindex(*shape):
            n = name + "".join(f"_{j}" for j in i)
            a[i] = complex(self._num(n + ".re", **k), self._num(n + ".im", **k)) if cplx else self._num(n, **k)
        return self._h.const(a)

    def vec(self, name, n, cplx=False, **k):
        return self.array(name, (n,), cplx, **k)

    def mat(self, name, n, m, cplx=False, **k):
        return self.array(name, (n, m), cplx, **k)

    def choose(self, name, options):
        return options[self._num(name, "I", 0, len(options) - 1)]

    def flag(self, name):
        return bool(self._num(name, "I", 0, 1))

    def oracle(self, name, nout, cplx=False, lo=None, hi=None, scalar=False, pos=False):
        def f(x):
            self._h.guard("warm " + name, 2500)
            if scalar:
                return self.cplx(name) if cplx else self.real(name, lo=lo, hi=hi, pos=pos)
            return self.array(name, (nout,), cplx, lo=lo, hi=hi, pos=pos)
        f.lookup = f
        return f

    def assume(self, cond):
        if self._h.mode == "conc":
            ok = bool(rnp.all(cond))
        else:
            ok = bool(b_all(cond.raw.flat) if isinstance(cond, SymArray) else cond)
        if not ok:
            raise WarmEnd()

    def eq(self, *a, **k):
        pass

    true = fail = eq

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except Exception:
            pass


WARM_METHODS = {"pxmcmc.prior": None, "pxmcmc.forward": None, "pxmcmc.transforms": None, "pxmcmc.measurements": None,
                "pxmcmc.mcmc": ("logpi", "calc_logtransition")}


WARM_FUNCTIONS = ("pxmcmc.utils", "pxmcmc.uncertainty")


class Warmer:
    """Once on, every call of a public method made by the harness comes after a call of the same method on the same object
    with numbers as array arguments."""

    def __init__(self, h):
        self.h, self.on, self.depth, self.n, self.done = h, False, 0, 0, set()
        self.bystander = None

    def patch(self, mods):
        for mn, names in WARM_METHODS.items():
            m = mods.get(mn)
            if m is None or mn in self.done:
                continue
            self.done.add(mn)
            for cls in list(vars(m).values()):
                if not isinstance(cls, type) or cls.__module__ != mn:
                    continue
                if "__init__" in vars(cls):
                    cls.__init__ = self.within(cls.__init__)
                for n, f in list(vars(cls).items()):
                    if callable(f) and hasattr(f, "__code__") and not n.startswith("_") and n != "run" and (names is None or n in names):
                        setattr(cls, n, self.wrap(f))
        for mn in WARM_FUNCTIONS:
            m = mods.get(mn)
            if m is None or mn in self.done:
                continue
            self.done.add(mn)
            for n, f in list(vars(m).items()):
                if callable(f) and hasattr(f, "__code__") and f.__module__ == mn and not n.startswith("_"):
                    setattr(m, n, self.wrap(f, True))

    def numbers(self, x):
        if self.h.mode == "sym":
            if not isinstance(x, SymArray):
                return x
            shape, kind = x.shape, x.dtype.kind
        else:
            if not isinstance(x, rnp.ndarray):
                return x
            shape, kind = x.shape, x.dtype.kind
        if kind not in "fc":
            return x
        import random
        rnd = random.Random(self.n)
        v = rnp.array([rnd.randint(-700, 700) / 256 + (rnd.randint(-700, 700) / 256 * 1j if kind == "c" else 0)
                       for _ in range(int(rnp.prod(shape)))], dtype=complex if kind == "c" else float).reshape(shape)
        return self.h.const(v)

    def within(self, f):
        """Methods called while an object is being made are its own business."""
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1
        return g

    def wrap(self, f, free=False):
        import functools
        if free:
            h = self.wrap(lambda this, *a, **k: f(*a, **k))
            return functools.wraps(f)(lambda *a, **k: h(None, *a, **k))

        @functools.wraps(f)
        def g(this, *a, **k):
            if self.on and self.depth == 0:
                b, self.bystander = self.bystander, None
                if b:
                    self.depth += 1
                    try:
                        b()
                    finally:
                        self.depth -= 1
                self.quiet(f, this, a, k)
            self.depth += 1
            try:
                r = f(this, *a, **k)
            finally:
                self.depth -= 1
            if self.on and self.depth == 0:
                self.quiet(f, this, a, k)           # ... and is followed by another: results handed out stay as they are
            return r
        return g

    def quiet(self, f, this, a, k):
        self.depth += 1
        self.n += 1
        try:
            b, l = [self.numbers(x) for x in a], {n: self.numbers(x) for n, x in k.items()}
            if any(x is not y for x, y in zip(b, a)) or any(l[n] is not k[n] for n in k):
                f(this, *b, **l)
        except (NonTermination, Budget):
            raise
        except Exception:
            pass
        finally:
            self.depth -= 1


def call(fn, h):
    """Run a harness; a configuration with a history runs its operations with numbers first."""
    hist = h.cfg.get("after") if isinstance(h.cfg, dict) else None
    if hist is None:
        return fn(h)
    full = h.cfg
    cfg = {k: v for k, v in full.items() if k != "after"}
    h.warmer = Warmer(h)
    try:
        def warm(k):
            try:
                fn(Warm(h, hist[k], k))
            except (NonTermination, Budget):
                raise
            except (Exception, PathEnd) as e:
                if os.environ.get("SYMX_DEBUG") and not isinstance(e, WarmEnd):
                    print("history:", hist[k], type(e).__name__, e, file=sys.stderr)
        for k in range(len(hist)):
            warm(k)
        h.cfg = cfg
        h.warmer.bystander = lambda: warm(0)        # others like it come into being between making and using an object
        h.warmer.on = True
        fn(h)
    finally:
        h.cfg = full


# ---------------------------------------------------------------------------
class Found(BaseException):
    def __init__(self, rec):
        self.rec = rec


class Inconclusive(BaseException):
    pass


class Runner:
    """Explores all paths of one harness under one configuration."""

    def __init__(self, prop, hname, fn, cfg, tier="quick", deadline=None, max_paths=4000, solver_ms=20000, opts=None):
        self.prop, self.hname, self.fn, self.cfg, self.tier = prop, hname, fn, cfg, tier
        self.deadline = deadline or time.time() + 240
        self.max_paths = max_paths
        self.solver_ms = solver_ms
        self.notes = []
        self.asserts = 0
        self.proved = 0
        self.tol_proved = 0
        self.validated = 0
        self.mismatch = 0
        self.paths = 0
        self.opts = opts or {}
        self.samples = []
        self.labels = {}
        self.second = 0
        self.spurious = 0

    def count_trivial(self):
        self.asserts += 1
        self.proved += 1

    # -- solving -----------------------------------------------------------
    def decide(self, cons, want_model=True, ms=None):
        ms = ms or self.solver_ms
        r, m = core.run_solver(cons, min(ms, 4000), want_model)
        if r == "unknown":
            r, m = core.run_solver(cons, ms, want_model, "qfnra-nlsat") if _pure_real(cons) else ("unknown", None)
        if r == "unknown":
            r2 = core.run_cvc5(cons, ms / 1000)
            if r2 == "unsat":
                return "unsat", None
        if r == "unknown" and ms > 4000:
            r, m = core.run_solver(cons, ms, want_model, hard=True)
        if r == "unsat" and self.tier == "thorough" and self.second < 40:
            self.second += 1
            if core.run_cvc5(cons, 20) == "sat":
                raise Inconclusive("z3 and cvc5 disagree")
            STATS.cvc5_confirm += 1
        return r, m

    def decide_in(self, c, atoms, extra):
        """Query under the path condition; congruence of user functions is added when needed."""
        cons = c.closure(atoms) + extra
        r, m = self.decide(cons)
        if r != "unsat" and c.lazy:
            seen, todo = set(), set(atoms)
            add, grew = [], True
            left = list(c.lazy)
            while grew:
                grew = False
                todo -= seen
                while todo:
                    i = todo.pop()
                    if i not in seen:
                        seen.add(i)
                        todo |= set(c.tab[i].deps)
                for q in list(left):
                    oat = set()
                    for e in list(q[2]) + list(q[3]):
                        oat |= e.atoms()
                    if oat <= seen:
                        z, at = _congruence(*q)
                        add.append(z)
                        todo |= at
                        left = [x for x in left if x is not q]
                        grew = True
            if add:
                r, m = self.decide(c.closure(seen) + add + extra)
        if r != "unsat":
            # path conditions tied to the query only through definitions
            link = set(atoms)
            for _, at, _ in c.pc:
                if not at <= link and c.deep(at) & link:
                    link |= c.deep(at)
            cons = c.closure(link) + extra
            if link != set(atoms) and len(cons) < 400:
                r2, m2 = self.decide(cons, ms=min(self.solver_ms, 8000))
                if r2 == "unsat" or r2 == "sat" and not (c.lazy and r == "sat"):
                    r, m = r2, m2
        return r, m

    def prove_eq(self, h, label, a, b, tol, scale):
        c = h.c
        t = c.tab
        A, B = a.raw.reshape(-1), b.raw.reshape(-1)
        neq, atoms, diffs, tiny, bigs = [], set(), [], [], []
        exact_ok = True
        for x, y in zip(A, B):
            x, y = to_s(x), to_s(y)
            if x.isnan_ != y.isnan_:
                self.refute(h, label, "result is undefined (division by zero)", None)
                return
            if x.isnan_:
                continue
            z = Poly({})
            for p, q in ((x.re, y.re), (x.im if x.im is not None else z, y.im if y.im is not None else z)):
                d = p.sub(q)
                if d.is_const() and abs(float(d.const_value())) <= (tol or 1e-9) * max(1.0, scale):
                    if not p.is_const():
                        neq.append(p.z(t) != q.z(t))
                        atoms |= p.atoms()
                        if d.const_value():
                            neq.pop()
                    continue
                diffs.append(d)
                big = max(abs(float(v)) for e in (p, q) for v in e.t.values())
                bigs.append(big)
                tiny.append(all(abs(float(v)) <= 1e-11 * big for v in d.t.values()))
                neq.append(p.z(t) != q.z(t))
                atoms |= p.atoms() | q.atoms()
        self.asserts += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not neq:
            self.proved += 1
            return
        if not diffs:
            # identical after normalisation: the solver confirms the identity
            r, _ = core.run_solver([z3.Or(*neq)], 5000) if len(neq) < 400 else ("unsat", None)
            if r in ("unsat", "unknown"):
                self.proved += 1
                return
        neq = [d.z(t) != 0 for d in diffs]
        atoms = set().union(*[d.atoms() for d in diffs])
        if tol is None and all(tiny):
            # differs by the rounding of floating-point constants only: |a - b| <= 1e-10 * max|coefficient| * sum |monomials|
            cons = []
            for k, (d, big) in enumerate(zip(diffs, bigs)):
                vs = [z3.Real(f"r{k}_{i}") for i in range(len(d.t))]
                cons.append((vs, z3.Sum(*[z3.RealVal(str(abs(co))) * v for v, co in zip(vs, d.t.values())]) >
                             z3.RealVal(str(Fraction(1e-10 * big))) * z3.Sum(*vs)))
            if core.run_solver([v >= 0 for vs, _ in cons for v in vs] + [z3.Or(*[q for _, q in cons])], 20000)[0] == "unsat":
                self.proved += 1
                self.tol_proved += 1
                return
        if tol is None:
            r, m = self.decide_in(c, atoms, [z3.Or(*neq) if len(neq) > 1 else neq[0]])
            if r == "unsat":
                self.proved += 1
                return
            if r == "sat":
                self.try_refute(h, label, m, diffs)
            tol = 1e-9
        # within tolerance on bounded inputs
        self.tolerance(h, label, diffs, tol * max(1.0, scale))

    def tolerance(self, h, label, diffs, tol):
        c = h.c
        t = c.tab
        # 1. linear abstraction: each monomial is an independent variable within its range
        bad = [d for d in diffs if not self._bound(d) <= tol]
        if not bad:
            # the bound above is what this linear query establishes
            self.lra(diffs, tol, t)
            self.proved += 1
            self.tol_proved += 1
            return
        zt = z3.RealVal(str(Fraction(tol)))
        cond = [z3.Or(d.z(t) > zt, d.z(t) < -zt) for d in bad]
        atoms = set().union(*[d.atoms() for d in bad])
        r, m = self.decide_in(c, atoms, self.box(atoms) + [z3.Or(*cond)])
        if r == "unsat":
            self.proved += 1
            self.tol_proved += 1
            return
        if r == "sat":
            self.try_refute(h, label, m, bad)
            self.refute_generic(h, label)
            if core.run_solver(c.all_constraints(), 20000, hard=True)[0] == "unsat":
                raise PathEnd()         # the path itself is impossible
            raise Inconclusive(f"{label}: counterexample does not reproduce on the real code")
        self.refute_generic(h, label)
        raise Inconclusive(f"{label}: solver gave no answer")

    def _mono(self, mono):
        """Bound of |monomial| for inputs in the box."""
        t = core.ctx().tab
        v = 1.0
        for a, e in mono:
            r = self._range(t[a]) if e > 0 else self._low(t[a])
            if r is None or e < 0 and r <= 0:
                return math.inf
            v *= r ** e
        return v

    def _bound(self, d):
        return sum(abs(float(co)) * self._mono(m) for m, co in d.t.items())

    def _low(self, at):
        """Positive lower bound of an atom for inputs in the box, or None."""
        if at.base and at.pos:
            return float(at.lo) if at.lo is not None and at.lo > 0 else (1 / 16 if at.hi is None else None)
        if at.tag == "sqrt":
            if at.arg is None:
                return math.sqrt(float(at.sq.const_value())) if at.sq is not None and at.sq.is_const() else None
            s = 0.0
            for mono, co in at.arg.t.items():
                if co < 0:
                    return None
                v = float(co)
                for a, e in mono:
                    x = core.ctx().tab[a]
                    r = self._low(x) if e > 0 else self._range(x)
                    v = 0.0 if r is None else v * r ** e
                s += v
            return math.sqrt(s) if s > 0 else None
        return None

    def lra(self, diffs, tol, t):
        """Ask the solver for the linear abstraction of the tolerance query."""
        var, cons, ors = {}, [], []
        zt = z3.RealVal(str(Fraction(tol)))
        for d in diffs:
            s = []
            for mono, co in d.t.items():
                if mono not in var:
                    r = self._mono(mono)
                    v = z3.Real(f"m{len(var)}")
                    rr = z3.RealVal(str(Fraction(r)))
                    cons += [v <= rr, v >= -rr]
                    var[mono] = v
                s.append(z3.RealVal(str(co)) * var[mono])
            e = z3.Sum(*s) if s else z3.RealVal(0)
            ors.append(z3.Or(e > zt, e < -zt))
        if len(var) > 3000:
            return
        r, _ = core.run_solver(cons + [z3.Or(*ors)], 20000)
        if r == "sat":
            raise Inconclusive("linear tolerance query: solver disagrees with the bound")

    def _range(self, at):
        lo, hi = at.lo, at.hi
        if at.base:
            b = BOX
            if lo is not None and hi is not None:
                return max(abs(float(lo)), abs(float(hi)))
            return b
        if at.tag == "sqrt" and at.arg is None and at.sq is not None and at.sq.is_const():
            return math.sqrt(float(at.sq.const_value()))
        if at.tag in ("cos", "sin"):
            return 1.0
        if at.tag == "sqrt" and at.arg is not None:
            b = self._bound(at.arg)
            return math.sqrt(b) if b < math.inf else None
        if at.tag == "abs":
            s = 0.0
            for mono, co in at.arg.t.items():
                v = abs(float(co))
                for a, e in mono:
                    r = self._range(core.ctx().tab[a])
                    if r is None or e < 0:
                        return None
                    v *= r ** e
                s += v
            return s
        return None

    def box(self, atoms=None, b=BOX, small=None):
        c = core.ctx()
        out = []
        ids = c.tab.keys()
        for i in ids:
            a = c.tab[i]
            if not a.base or a.sort != "R":
                continue
            if a.hi is None:
                out.append(a.z <= b)
            if a.lo is None:
                out.append(a.z >= (z3.RealVal("1/16") if a.pos else -b))
            elif a.pos and a.hi is None and a.lo == 0:
                out.append(a.z >= z3.RealVal("1/16"))
        return out

    def prove(self, h, label, cond):
        self.asserts += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, (bool, rnp.bool_)):
            if cond:
                self.proved += 1
                return
            self.refute(h, label, "condition is false", None)
            return
        c = h.c
        neg = z3.Not(cond.z)
        r, m = self.decide_in(c, cond.atoms, [neg])
        if r == "unsat":
            self.proved += 1
            return
        if r == "sat":
            self.try_refute(h, label, m, None, neg, cond.atoms)
            self.refute_generic(h, label)
            if core.run_solver(c.all_constraints(), 20000, hard=True)[0] == "unsat":
                raise PathEnd()         # the path itself is impossible
            raise Inconclusive(f"{label}: counterexample does not reproduce on the real code")
        self.refute_generic(h, label)
        raise Inconclusive(f"{label}: solver gave no answer")

    # -- counterexamples -----------------------------------------------------
    def values_of(self, c, m):
        vals = {}
        for name, a in c.base.items():
            v = core.model_value(m, a.z)
            vals[name] = core.default_value(a) if v is None else v
        return vals

    def replay(self, h, vals):
        c = h.c
        env = c.evaluator(vals)
        tables = {}
        for n, o in h.oracles.items():
            try:
                tables[n] = o.numeric(env)
            except Exception:
                tables[n] = []
        full = {}
        for n, a in c.base.items():
            full[n] = vals.get(n, core.default_value(a))
        f, ch = run_concrete(self.fn, self.cfg, full, tables)
        return f, full, tables

    def report(self, h, label, f, vals, tables):
        raise Found({"property": self.prop, "harness": self.hname, "config": self.cfg, "assertion": label,
                     "observed": list(f), "values": {k: v for k, v in vals.items()}, "oracles": tables})

    def try_refute(self, h, label, m, diffs, neg=None, at=None):
        """Replay a counterexample; then a well-scaled one."""
        vals = self.values_of(h.c, m)
        self.cex_tried = True
        f, full, tabs = self.replay(h, vals)
        if f and f != "assumption":
            self.report(h, label, f, full, tabs)
        c = h.c
        self.spurious += 1
        for margin in ("1/2", "1/20", "1/1000") if self.spurious < 4 else ():
            if diffs is not None:
                zt = z3.RealVal(margin)
                cond = [z3.Or(*[z3.Or(d.z(c.tab) > zt, d.z(c.tab) < -zt) for d in diffs])]
                atoms = set().union(*[d.atoms() for d in diffs])
            else:
                cond, atoms = [neg], at
            for bx in (self.box(b=2), self.box(b=BOX)):
                cons = c.all_constraints() + bx + cond
                r, m2 = core.run_solver(cons, 6000, True, hard=True)
                if r == "unknown" and _pure_real(cons):
                    r, m2 = core.run_solver(cons, 6000, True, "qfnra-nlsat")
                if r == "sat":
                    f, full, tabs = self.replay(h, self.values_of(c, m2))
                    if f and f != "assumption":
                        self.report(h, label, f, full, tabs)
                    break
            if diffs is None:
                break
        self.refute_generic(h, label)

    def refute_generic(self, h, label):
        """Try generic points of the current path (the solver's models may be degenerate)."""
        for vals in self.witnesses(h, 4):
            f, full, tabs = self.replay(h, vals)
            if f and f != "assumption":
                self.report(h, label, f, full, tabs)

    def refute(self, h, label, why, m):
        """The assertion fails on the whole path: any witness of the path shows it."""
        self.asserts += 1
        n = 0
        for vals in self.witnesses(h, 6):
            n += 1
            f, full, tabs = self.replay(h, vals)
            if f and f != "assumption":
                self.report(h, label, f, full, tabs)
        for vals in self.far_witnesses(h):
            n += 1
            f, full, tabs = self.replay(h, vals)
            if f and f != "assumption":
                self.report(h, label, f, full, tabs)
        r, _ = core.run_solver(h.c.all_constraints(), 20000, hard=True)
        if r == "unsat":
            raise PathEnd()
        raise Inconclusive(f"{label}: {why}; not reproduced on the real code ({n} witnesses)")

    def witnesses(self, h, k=3):
        """Concrete points on the current path."""
        c = h.c
        out = 0
        import random
        rnd = random.Random(12345)
        env = None
        for t in range(400 if c.pc else 8):
            vals = {}
            for n, a in c.base.items():
                if t == 0:
                    v = core.default_value(a)
                else:
                    v = core.random_value(a, rnd)
                vals[n] = v
            try:
                env = c.evaluator(vals)
                ok = all(ev(env) for _, _, ev in c.pc) and self._bounds_ok(c, vals)
            except Exception:
                ok = False
            if ok:
                out += 1
                yield vals
                if out >= k:
                    return
        base = c.all_constraints()
        for bx in (self.box(b=2), self.box(), []):
            r, m = core.run_solver(base + bx, 5000, True, hard=True)
            if r == "unknown" and _pure_real(base):
                r, m = core.run_solver(base + bx, 5000, True, "qfnra-nlsat")
            if r == "sat":
                yield self.values_of(c, m)
                out += 1
                # a second, generic point near the model
                vals = self.values_of(c, m)
                for t in range(4):
                    v2 = dict(vals)
                    for n, a in c.base.items():
                        if a.sort == "R":
                            v2[n] = vals[n] + (rnd.random() - 0.5) * (0.2 if t < 2 else 0.01)
                    try:
                        env = c.evaluator(v2)
                        if all(ev(env) for _, _, ev in c.pc) and self._bounds_ok(c, v2):
                            yield v2
                            out += 1
                            break
                    except Exception:
                        pass
                if out >= k:
                    return

    def far_witnesses(self, h):
        """Points of the path whose Gaussian draws are far out in the tails."""
        c = h.c
        import random
        rnd = random.Random(777)
        normals = {a.name for a, t in c.draws if t == "normal"}
        if not normals:
            return
        for f in (8, 60, 1e3, 1e5):
            for _ in range(6):
                vals = {n: core.random_value(a, rnd) * (f if n in normals else 1) for n, a in c.base.items()}
                try:
                    env = c.evaluator(vals)
                    ok = all(ev(env) for _, _, ev in c.pc) and self._bounds_ok(c, vals)
                except Exception:
                    ok = False
                if ok:
                    yield vals
                    break

    def _bounds_ok(self, c, vals):
        for n, a in c.base.items():
            v = vals[n]
            if a.lo is not None and v < a.lo or a.hi is not None and v > a.hi or a.pos and v <= 0 or a.nonneg and v < 0:
                return False
        return True

    # -- exploration ----------------------------------------------------------
    def run(self):
        todo = [[]]
        res = {"status": "ok", "found": None, "error": None}
        reached = 0
        try:
            while todo:
                if self.paths >= self.max_paths:
                    raise Inconclusive(f"more than {self.max_paths} paths")
                if time.time() > self.deadline:
                    raise Inconclusive("time limit")
                pre = todo.pop()
                c = core.Ctx(pre, self.deadline)
                core.set_ctx(c)
                h = SymH(self.cfg, c, self, self.opts.get("extra") and self.opts["extra"]())
                shims.FakeFile.files.clear()
                self.paths += 1
                ended = False
                try:
                    with rnp.errstate(all="ignore"), alarm(max(5, min(200 if self.tier == "quick" else 1500, self.deadline - time.time() + 5))):
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            call(self.fn, h)
                except PathEnd:
                    ended = True
                except (Found, Inconclusive):
                    raise
                except Unsupported as e:
                    tb = traceback.extract_tb(sys.exc_info()[2])
                    where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/pxmcmc/" in f.filename), "")
                    self.refute_generic(h, "unsupported")
                    raise Inconclusive(f"cannot encode: {e} {where}")
                except Exception as e:
                    if os.environ.get("SYMX_DEBUG"):
                        traceback.print_exc()
                    self.refute(h, "unexpected exception", f"{type(e).__name__}: {e}", None)
                todo.extend(c.alts)
                if not ended:
                    reached += 1
                    self.validate(h)
            if not reached:
                raise Inconclusive("no path reaches the end of the harness (vacuous)")
        except Found as f:
            res["status"] = "violation"
            res["found"] = f.rec
        except (Inconclusive, Budget) as e:
            res["status"] = "inconclusive"
            res["error"] = str(e)
        except NonTermination as e:
            res["status"] = "inconclusive"
            res["error"] = "time limit: " + str(e)
        res.update(paths=self.paths, asserts=self.asserts, proved=self.proved, tol_proved=self.tol_proved,
                   validated=self.validated, mismatch=self.mismatch, labels=self.labels, reached=reached,
                   samples=self.samples, notes=self.notes)
        return res

    def validate(self, h):
        """Cross-check the symbolic run with the real package on a point of this path."""
        lim = 12 if self.tier == "quick" else 40
        if self.validated >= lim or time.time() > self.deadline - 5:
            return
        c = h.c
        for vals in self.witnesses(h, 1):
            f, full, tabs = self.replay(h, vals)
            if f == "assumption":
                continue
            if f:
                # real code fails the same harness: confirm on other points of the path
                n = 0
                for v2 in self.witnesses(h, 4):
                    f2, full2, tabs2 = self.replay(h, v2)
                    if f2 and f2 != "assumption":
                        n += 1
                        if n >= 2:
                            self.report(h, f2[0], f2, full2, tabs2)
                self.mismatch += 1
                self.notes.append(f"witness failed concretely: {f}")
                return
            self.validated += 1
            if len(self.samples) < 3:
                self.samples.append({"harness": self.hname, "config": self.cfg,
                                     "path": [str(p[0]) for p in c.trace][:12],
                                     "input": {k: v for k, v in list(full.items())[:8]}})
            return


def _pure_real(cons):
    seen = set()

    def walk(e):
        if e.get_id() in seen:
            return True
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                return False
            if e.sort() == z3.IntSort():
                return False
            return all(walk(x) for x in e.children())
        return True
    return all(walk(x) for x in cons)
