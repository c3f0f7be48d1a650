"""Symbolic scalars, path exploration and solver access.

The real functions of /repo run unmodified on `S` values.  Where the code
branches on a symbolic condition, `Ctx.branch` forks: the harness is
re-executed once per feasible decision sequence.  Every assertion of the
harness becomes a solver query `path condition & definitions & not(assertion)`.
"""
import sys
from fractions import Fraction
import cmath
import itertools
import math
import zlib
import numbers
import ctypes
import os
import pickle
import select
import signal
import time

import numpy as rnp
import z3

from .poly import Atom, Poly, F, squarefree, isqrt_exact


class Unsupported(Exception):
    """The shims cannot represent an operation of the code under check."""


class PathEnd(BaseException):
    """The current path is infeasible or assumed away."""


class Budget(BaseException):
    """A resource limit of the check was reached."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.branches = 0
        self.paths = 0
        self.cvc5_confirm = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()
CTX = None


def ctx():
    if CTX is None:
        raise RuntimeError("no symbolic context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Values:
    """A model handed over by a solver process: values of the named constants."""

    def __init__(self, d):
        self.d = d

    def value(self, name):
        return self.d.get(name)


def model_value(m, z):
    """Python number of a constant in a model, or None."""
    if isinstance(m, Values):
        return m.value(str(z))
    v = m.eval(z, model_completion=False)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(40).as_fraction())
    return None


def _check(constraints, timeout_ms, tactic):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", timeout_ms)
    s.add(*constraints)
    try:
        return s, s.check()
    except z3.Z3Exception:
        return s, z3.unknown


def run_solver(constraints, timeout_ms=10000, want_model=False, tactic=None, hard=False):
    """One query.  hard: in a process of its own, ended when the time is over (nlsat does not always notice)."""
    STATS.queries += 1
    t0 = time.time()
    if hard or tactic is not None:
        r, m = _forked(constraints, timeout_ms, want_model, tactic)
    else:
        s, r = _check(constraints, timeout_ms, tactic)
        m = s.model() if r == z3.sat and want_model else None
        r = str(r)
    STATS.solver_s += time.time() - t0
    setattr(STATS, r, getattr(STATS, r) + 1)
    return r, m


def _forked(constraints, timeout_ms, want_model, tactic):
    def work():
        s, r = _check(constraints, timeout_ms, tactic)
        vals = {}
        if r == z3.sat and want_model:
            m = s.model()
            for d in m.decls():
                if d.arity() == 0:
                    v = model_value(m, d())
                    if v is not None:
                        vals[d.name()] = v
        return str(r), vals
    out = in_process(work, timeout_ms / 1000 + 2)
    if out is None:
        return "unknown", None
    r, vals = out
    return r, (Values(vals) if r == "sat" else None)


def die_with_parent():
    """A worker does not outlive the process that waits for it."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def in_process(work, seconds):
    """Result of work() computed in a child that is ended when the time is over; None without a result."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            die_with_parent()
            os.close(rd)
            signal.setitimer(signal.ITIMER_REAL, 0)
            out = work()
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(wr)
    buf = b""
    end = time.time() + seconds
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                break
            x = os.read(rd, 1 << 16)
            if not x:
                break
            buf += x
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return None


def run_cvc5(constraints, timeout_s=60):
    """Second opinion from cvc5, through SMT-LIB text."""
    STATS.queries += 1
    t0 = time.time()
    s = z3.Solver()
    s.add(*constraints)
    txt = s.to_smt2()

    def work():
        import cvc5
        try:
            slv = cvc5.Solver()
            slv.setOption("tlimit", str(int(timeout_s * 1000)))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            out = ""
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                out += c.invoke(slv, sm)
            out = out.strip().splitlines()[-1] if out.strip() else "unknown"
            return "unknown" if "error" in out else out
        except Exception:
            return "unknown"
    out = in_process(work, timeout_s + 1)
    STATS.solver_s += time.time() - t0
    if out not in ("sat", "unsat"):
        out = "unknown"
    setattr(STATS, out, getattr(STATS, out) + 1)
    return out


sys.set_int_max_str_digits(0)          # exact fractions of long runs
_EPS = Fraction(1, 10 ** 12)


class Ctx:
    def __init__(self, prefix=(), deadline=None):
        self.tab = {}
        self.names = {}
        self.memo = {}
        self.pc = []               # list of (z3, frozenset atom ids, ev)
        self.prefix = list(prefix)
        self.trace = []            # decisions taken
        self.alts = []             # alternative prefixes discovered
        self.base = {}             # name -> Atom of harness inputs, in order
        self.draws = []            # (Atom, distribution tag)
        self.rng = {}              # state of the global random stream
        self.fixed_uniform = None
        self.fixed_normal = False
        self.numbers = []
        self.oracles = []
        self.deadline = deadline
        self.pcmemo = {}
        self.ntrunc = 0
        self.pairs = {"exp": [], "log": []}
        self.lazy = []             # congruence of user functions: (args, args, result, result), used when a query is satisfiable
        self._wit = None
        self._wit_n = -1
        self.exact = {}            # polynomial key -> its representative
        self.shapes = {}           # monomials -> representatives

    def canon(self, p):
        """The first polynomial seen that differs from p by the rounding of floating-point constants only (or p)."""
        k = p.key()
        r = self.exact.get(k)
        if r is None:
            r = p
            fam = self.shapes.setdefault(tuple(m for m, _ in k), [])
            if len(k) < 500:
                fl = [float(v) for _, v in k]
                near = 4 * float(_EPS) + 1e-15
                for q, fq in fam:
                    if all(abs(a - b) <= abs(b) * near for a, b in zip(fl, fq)) and all(abs(a - b) <= abs(b) * _EPS for (_, a), (_, b) in zip(k, q.key())):
                        r = q
                        break
                else:
                    fam.append((p, fl))
            self.exact[k] = r
        return r

    def witness(self):
        """Numeric point satisfying the path condition so far (or None); speeds up feasibility only."""
        if self._wit_n == len(self.pc) and self._wit is not None:
            return self._wit
        if self._wit_n == len(self.pc) and self._wit is None:
            return None
        if self._wit is not None:
            env = self.evaluator(self._wit)
            if self.holds(env, self._wit_n):
                self._wit_n = len(self.pc)
                return self._wit
        import random
        rnd = random.Random(len(self.pc) * 7 + 1)
        self._wit_n = len(self.pc)
        old = self._wit
        self._wit = None
        for t in range(120):
            vals = {}
            for n, a in self.base.items():
                if t == 0:
                    vals[n] = default_value(a)
                elif old is not None and t < 60 and n in old and rnd.random() < 0.7:
                    vals[n] = old[n]
                else:
                    vals[n] = random_value(a, rnd)
            if self.holds(self.evaluator(vals), 0):
                self._wit = vals
                break
        return self._wit

    def holds(self, env, start):
        try:
            return all(ev(env) for _, _, ev in self.pc[start:])
        except (ArithmeticError, ValueError):
            return False

    def witness_says(self, ev):
        """Truth of a condition at the witness, or None."""
        w = self.witness()
        if w is None:
            return None
        try:
            return bool(ev(self.evaluator(w)))
        except (ArithmeticError, ValueError):
            return None

    # -- atoms ---------------------------------------------------------
    def new_atom(self, hint, sort="R", base=False):
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        name = hint if (base and n == 0) else f"{hint}!{n}"
        a = Atom(len(self.tab), name, sort, base)
        self.tab[a.id] = a
        if base:
            self.base[name] = a
        return a

    def add_def(self, atom, cons, deps):
        atom.defs.append(cons)
        atom.deps |= set(deps)

    # -- constraints ---------------------------------------------------
    def deep(self, ids):
        """The atoms and everything they are defined from."""
        seen, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo += list(self.tab[i].deps)
        return seen

    def closure(self, ids, include_pc=True):
        """Constraints (path condition + definitions) connected to atoms `ids`."""
        seen = set()
        todo = list(ids)
        out = []
        pcs = list(self.pc) if include_pc else []
        used = [False] * len(pcs)
        while todo:
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                for d in self.tab[i].deps:
                    if d not in seen:
                        todo.append(d)
            for k, (c, at, _) in enumerate(pcs):
                if not used[k] and (at & seen):
                    used[k] = True
                    out.append(c)
                    todo += [a for a in at if a not in seen]
        for i in seen:
            a = self.tab[i]
            out += a.defs
            out += self.bounds(a)
        return out

    def bounds(self, a):
        out = []
        if a.pos:
            out.append(a.z > 0)
        elif a.nonneg:
            out.append(a.z >= 0)
        if a.zinv is not None:
            out.append(a.zinv * a.zreal() == 1)
        if a.base:
            if a.lo is not None:
                out.append(a.z >= (z3.RealVal(str(a.lo)) if a.sort == "R" else a.lo))
            if a.hi is not None:
                out.append(a.z <= (z3.RealVal(str(a.hi)) if a.sort == "R" else a.hi))
        return out

    def all_constraints(self):
        out = [c for c, _, _ in self.pc]
        for a in self.tab.values():
            out += a.defs
            out += self.bounds(a)
        return out

    def feasible(self, cond, atoms, timeout_ms=4000):
        r, _ = run_solver(self.closure(atoms) + [cond], timeout_ms)
        return r

    def branch(self, b):
        """Decide a symbolic boolean, forking if both outcomes are possible."""
        if isinstance(b, (bool, rnp.bool_)):
            return bool(b)
        zz = z3.simplify(b.z)
        if z3.is_true(zz):
            return True
        if z3.is_false(zz):
            return False
        k = zz.get_id()
        if k in self.pcmemo:
            return self.pcmemo[k][0]
        if self.deadline and time.time() > self.deadline:
            raise Budget("time limit of the harness reached while exploring paths")
        i = len(self.trace)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
        else:
            ws = self.witness_says(b.ev)
            rt = "sat" if ws is True else self.feasible(zz, b.atoms)
            if rt == "unsat":
                d, forced = False, True
            else:
                rf = "sat" if ws is False else self.feasible(z3.Not(zz), b.atoms)
                if rf == "unsat":
                    d, forced = True, True
                else:
                    d, forced = True, False
                    self.alts.append(self.trace + [(False, False)])
        STATS.branches += 1
        self.trace.append((d, forced))
        if not forced:
            if d:
                self.pc.append((zz, b.atoms, b.ev))
            else:
                self.pc.append((z3.Not(zz), b.atoms, _not_ev(b.ev)))
        self.pcmemo[k] = (d, zz)
        nz = z3.simplify(z3.Not(zz))
        self.pcmemo[nz.get_id()] = (not d, nz)
        return d

    def assume(self, b):
        if isinstance(b, (bool, rnp.bool_)):
            if not b:
                raise PathEnd()
            return
        zz = z3.simplify(b.z)
        if z3.is_true(zz):
            return
        if z3.is_false(zz) or (self.witness_says(b.ev) is not True and self.feasible(zz, b.atoms) == "unsat"):
            raise PathEnd()
        self.pc.append((zz, b.atoms, b.ev))
        self.pcmemo[zz.get_id()] = (True, zz)

    def concretize(self, s):
        """Fork over the values an integer expression can take."""
        p = s.re
        if p.is_const():
            return int(p.const_value())
        for _ in range(200):
            i = len(self.trace)
            e = p.zi(self.tab) if p.is_int(self.tab) else z3.ToInt(p.z(self.tab))
            at = frozenset(self.deep(p.atoms()))
            if i < len(self.prefix):
                (d, v), forced = self.prefix[i]
            else:
                r, m = run_solver(self.closure(at), 5000, want_model=True)
                if r != "sat":
                    raise Unsupported("cannot enumerate an integer")
                v = m.eval(e, model_completion=True).as_long()
                rf = self.feasible(e != v, at)
                d, forced = True, rf == "unsat"
                if not forced:
                    self.alts.append(self.trace + [((False, v), False)])
            STATS.branches += 1
            self.trace.append(((d, v), forced))
            pe = p
            if d:
                self.pc.append((e == v, at, lambda env, v=v: pe.ev(env) == v))
                return v
            self.pc.append((e != v, at, lambda env, v=v: pe.ev(env) != v))
        raise Unsupported("unbounded integer")

    # -- numeric evaluation under an assignment of the inputs -------------
    def evaluator(self, values):
        cache = {}

        def env(aid):
            if aid in cache:
                return cache[aid]
            a = self.tab[aid]
            if a.ev is not None:
                v = a.ev(env)
            else:
                v = values.get(a.name)
                if v is None:
                    v = default_value(a)
            cache[aid] = v
            return v
        return env


def numbered_draw(name, upto):
    """A number for the draw of this name: small, of few digits; None for draws from number `upto` on."""
    import hashlib
    if upto is True:
        upto = 10 ** 9
    if int(name.rsplit("_", 1)[1]) >= upto:
        return None
    return (int(hashlib.md5(name.encode()).hexdigest()[:7], 16) - 2 ** 27) / 2 ** 26


def default_value(a):
    lo = None if a.lo is None else float(a.lo)
    hi = None if a.hi is None else float(a.hi)
    h = (zlib.crc32(a.name.encode()) % 99991) / 99991.0
    if a.sort == "I":
        return int(a.lo if a.lo is not None else 1)
    if lo is not None and hi is not None:
        return lo + (hi - lo) * (0.2 + 0.6 * h)
    if lo is not None:
        return lo + 0.5 + h
    if hi is not None:
        return hi - 0.5 - h
    return (0.25 + h) if a.pos or a.nonneg else (2 * h - 1) * 1.5


def random_value(a, rnd):
    if a.sort == "I":
        lo = a.lo if a.lo is not None else -3
        hi = a.hi if a.hi is not None else lo + 6
        return rnd.randint(int(lo), int(hi))
    lo = float(a.lo) if a.lo is not None else (0.1 if a.pos or a.nonneg else -2.0)
    hi = float(a.hi) if a.hi is not None else max(lo + 2.0, 2.0)
    return lo + (hi - lo) * rnd.uniform(0.05, 0.95)


def _not_ev(ev):
    return lambda env: not ev(env)


# ---------------------------------------------------------------------------
class SBool:
    """Symbolic boolean."""
    __slots__ = ("z", "atoms", "ev")
    __array_priority__ = 2000

    def __init__(self, z, atoms, ev):
        self.z = z
        self.atoms = frozenset(atoms)
        self.ev = ev

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        return b_and(self, o) if _isb(o) else _arr_defer(self, o, "&")

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o) if _isb(o) else _arr_defer(self, o, "|")

    __ror__ = __or__

    def __xor__(self, o):
        if not _isb(o):
            return NotImplemented
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def logical_not(self):
        return b_not(self)

    def __eq__(self, o):
        if _isb(o):
            return b_or(b_and(self, o), b_and(b_not(self), b_not(o)))
        return to_s(self) == o

    def __ne__(self, o):
        return b_not(self == o)

    __hash__ = object.__hash__

    def __repr__(self):
        return f"SBool({self.z})"

    def __format__(self, spec):
        return "<sym bool>"

    # arithmetic as 0/1
    def __add__(self, o): return to_s(self) + o
    def __radd__(self, o): return o + to_s(self)
    def __sub__(self, o): return to_s(self) - o
    def __rsub__(self, o): return o - to_s(self)
    def __mul__(self, o): return to_s(self) * o
    def __rmul__(self, o): return o * to_s(self)
    def __truediv__(self, o): return to_s(self) / o
    def __lt__(self, o): return to_s(self) < o
    def __gt__(self, o): return to_s(self) > o
    def __le__(self, o): return to_s(self) <= o
    def __ge__(self, o): return to_s(self) >= o
    def __neg__(self): return -to_s(self)
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))

    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def astype(self, dt):
        return to_s(self) if rnp.dtype(dt).kind != "b" else self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr
        return arr.do_ufunc(ufunc, method, inputs, kwargs)


def _arr_defer(a, o, op):
    return NotImplemented


def _isb(o):
    return isinstance(o, (bool, rnp.bool_, SBool))


def b_not(a):
    if isinstance(a, SBool):
        return SBool(z3.Not(a.z), a.atoms, _not_ev(a.ev))
    return not a


def b_and(a, b):
    if not isinstance(a, SBool):
        return b if a else False
    if not isinstance(b, SBool):
        return a if b else False
    return SBool(z3.And(a.z, b.z), a.atoms | b.atoms, lambda env: a.ev(env) and b.ev(env))


def b_or(a, b):
    if not isinstance(a, SBool):
        return True if a else b
    if not isinstance(b, SBool):
        return True if b else a
    return SBool(z3.Or(a.z, b.z), a.atoms | b.atoms, lambda env: a.ev(env) or b.ev(env))


def b_all(it):
    r = True
    for x in it:
        r = b_and(r, as_bool(x))
    return r


def b_any(it):
    r = False
    for x in it:
        r = b_or(r, as_bool(x))
    return r


def as_bool(x):
    """Truth of a scalar, symbolically (no fork)."""
    if isinstance(x, SBool):
        return x
    if isinstance(x, S):
        return x != 0
    return bool(x)


# ---------------------------------------------------------------------------
NUM = (int, float, Fraction, rnp.integer, rnp.floating)


def is_sym(x):
    return isinstance(x, (S, SBool))


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, rnp.integer)):
        return Fraction(int(x))
    x = float(x)
    return Fraction(x)


def to_s(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SBool):
        r = ite(x, S(Poly.const(1), kind="i"), S(Poly.const(0), kind="i"))
        return to_s(r)
    if isinstance(x, (bool, rnp.bool_, int, rnp.integer)):
        return S(Poly.const(int(x)), kind="i")
    if isinstance(x, Fraction):
        return S(Poly.const(x))
    if isinstance(x, (float, rnp.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return S.nan()
        return S(Poly.const(Fraction(x)))
    if isinstance(x, (complex, rnp.complexfloating)):
        x = complex(x)
        if cmath.isnan(x) or cmath.isinf(x):
            return S.nan()
        return S(Poly.const(Fraction(x.real)), Poly.const(Fraction(x.imag)))
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return to_s(x[()])
    raise TypeError(f"cannot make a symbolic number from {type(x).__name__}")


def _scalar_like(o):
    return isinstance(o, (S, SBool, bool, int, float, complex, Fraction, rnp.number, rnp.bool_))


class S:
    """Symbolic number: real part, optional imaginary part, kind i/f/c."""
    __slots__ = ("re", "im", "kind", "isnan_")
    __array_priority__ = 2000

    def __init__(self, re, im=None, kind=None):
        self.re = re
        self.im = im
        self.kind = kind or ("f" if im is None else "c")
        self.isnan_ = False

    @staticmethod
    def nan():
        s = S(Poly.const(0))
        s.isnan_ = True
        return s

    # -- helpers ---------------------------------------------------------
    def is_const(self):
        return not self.isnan_ and self.re.is_const() and (self.im is None or self.im.is_const())

    def value(self):
        """Python number of a constant."""
        if self.isnan_:
            return float("nan")
        r = self.re.const_value()
        if self.im is None:
            return int(r) if self.kind == "i" and r.denominator == 1 else r.numerator / r.denominator
        i = self.im.const_value()
        return complex(r.numerator / r.denominator, i.numerator / i.denominator)

    def atoms(self):
        a = self.re.atoms()
        return a if self.im is None else a | self.im.atoms()

    def ev(self, env):
        if self.isnan_:
            return float("nan")
        r = self.re.ev(env)
        if self.im is None:
            return r
        return complex(r, self.im.ev(env))

    # -- arithmetic --------------------------------------------------------
    def _bin(self, o, f):
        if isinstance(o, rnp.ndarray) and o.ndim:
            return NotImplemented
        if not _scalar_like(o):
            if isinstance(o, rnp.ndarray):
                o = o[()]
            else:
                return NotImplemented
        return f(self, to_s(o))

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: s_sub(b, a))
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._bin(o, s_mul)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: s_div(b, a))
    def __floordiv__(self, o): return self._bin(o, s_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: s_floordiv(b, a))
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, lambda a, b: s_mod(b, a))
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)
    def __pow__(self, o, mod=None): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, lambda a, b: s_pow(b, a))
    def __neg__(self): return s_sub(S(Poly.const(0), kind="i"), self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)

    # -- comparison --------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, rnp.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (float, rnp.floating)) and math.isinf(float(o)) and not self.isnan_:
            big = float(o) > 0
            return {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
        if not _scalar_like(o):
            if isinstance(o, rnp.ndarray):
                o = o[()]
            elif op == "==":
                return False
            elif op == "!=":
                return True
            else:
                return NotImplemented
        return s_cmp(self, to_s(o), op)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")

    def __hash__(self):
        return 0x5A         # which entries of a dictionary are equal is a question for the solver

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    # -- conversions -------------------------------------------------------
    def __index__(self):
        if self.im is not None or self.kind != "i":
            raise TypeError("only integer scalars can be used as an index")
        return ctx().concretize(self)

    def __int__(self):
        if self.is_const():
            return int(self.value())
        if self.kind == "i":
            return ctx().concretize(self)
        return ctx().concretize(s_trunc(self))

    def __float__(self):
        if self.is_const():
            return float(self.value())
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(self.value())
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def __trunc__(self): return s_trunc(self)
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return -s_floor(-self)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        if self.isnan_:
            return "S(nan)"
        t = ctx().tab if CTX else {}

        def show(p):
            return " + ".join("*".join([str(c)] + [f"{t[a].name if a in t else a}^{e}" for a, e in m])
                              for m, c in list(p.t.items())[:6]) or "0"
        return f"S({show(self.re)}" + (f", i*({show(self.im)})" if self.im is not None else "") + ")"

    # -- numpy-scalar protocol ----------------------------------------------
    @property
    def real(self):
        return S(self.re, kind="i" if self.kind == "i" else "f") if not self.isnan_ else self

    @property
    def imag(self):
        return S(self.im if self.im is not None else Poly.const(0)) if not self.isnan_ else self

    def conjugate(self):
        if self.im is None or self.isnan_:
            return self
        return S(self.re, self.im.neg())

    conj = conjugate

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def sqrt(self): return s_sqrt(self)
    def exp(self): return s_exp(self)
    def log(self): return s_log(self)
    def item(self): return self
    def copy(self): return self
    def flatten(self): return _arr1(self)
    ravel = flatten
    def sum(self, *a, **k): return self
    def any(self, *a, **k): return as_bool(self)
    def all(self, *a, **k): return as_bool(self)
    def is_integer(self): return self.kind == "i" or bool(s_cmp(self, s_floor(self), "=="))
    def astype(self, dt):
        from . import arr
        return arr.cast_scalar(self, rnp.dtype(dt))

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return rnp.dtype({"i": "int64", "f": "float64", "c": "complex128"}[self.kind])

    @property
    def T(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr
        return arr.do_ufunc(ufunc, method, inputs, kwargs)

    def __array__(self, dtype=None, copy=None):
        a = rnp.empty((), dtype=object)
        a[()] = self
        return a


def _arr1(s):
    from . import arr
    return arr.wrap_list([s], (1,))


_ORDER = {"i": 0, "f": 1, "c": 2}


def _kind(a, b):
    return a.kind if _ORDER[a.kind] >= _ORDER[b.kind] else b.kind


def mk(re, im, kind):
    if im is None:
        return S(re, None, "f" if kind == "c" else kind)
    return S(re, im, "c")


def s_add(a, b):
    if a.isnan_ or b.isnan_:
        return S.nan()
    re = a.re.add(b.re)
    im = None
    if a.im is not None or b.im is not None:
        im = (a.im or Poly({})).add(b.im or Poly({})) if (a.im is not None and b.im is not None) else (
            a.im if a.im is not None else b.im)
    return mk(re, im, _kind(a, b))


def s_sub(a, b):
    if a.isnan_ or b.isnan_:
        return S.nan()
    re = a.re.sub(b.re)
    im = None
    if a.im is not None or b.im is not None:
        im = (a.im if a.im is not None else Poly({})).sub(b.im if b.im is not None else Poly({}))
    return mk(re, im, _kind(a, b))


def s_mul(a, b):
    if a.isnan_ or b.isnan_:
        return S.nan()
    t = ctx().tab
    if a.im is None and b.im is None:
        return mk(a.re.mul(b.re, t), None, _kind(a, b))
    z = Poly({})
    ai = a.im if a.im is not None else z
    bi = b.im if b.im is not None else z
    re = a.re.mul(b.re, t).sub(ai.mul(bi, t))
    im = a.re.mul(bi, t).add(ai.mul(b.re, t))
    return S(re, im)


def known_sign(p):
    """+1/-1 if the polynomial's sign is syntactically known (non-zero), else 0."""
    if not p.t:
        return 0
    tab = ctx().tab
    sgn = None
    strict = False
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        st = True
        for a, e in m:
            at = tab[a]
            if at.pos:
                continue
            if e % 2 == 0 or at.nonneg:
                if not at.nonzero:
                    st = False
                continue
            return 0
        if sgn is None:
            sgn = s
        elif sgn != s:
            return 0
        strict = strict or st
    return sgn if strict else 0


def known_nonneg(p):
    tab = ctx().tab
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            at = tab[a]
            if not (at.pos or at.nonneg or e % 2 == 0):
                return False
    return True


def p_nonzero(p):
    """Fork on p == 0; returns True on the non-zero branch."""
    if p.is_const():
        return bool(p.const_value())
    if known_sign(p):
        return True
    c = ctx()
    tab = c.tab
    if len(p) == 1:
        (m, _), = p.t.items()
        for a, _e in m:
            at = tab[a]
            if at.pos or at.nonzero:
                continue
            if c.branch(SBool(at.zreal() == 0, {a}, lambda env, a=a: env(a) == 0)):
                return False
            at.nonzero = True
        return True
    pz = p.z(tab)
    return not c.branch(SBool(pz == 0, p.atoms(), lambda env: p.ev(env) == 0))


def p_inv(p):
    """1/p as a Poly, p known non-zero on this path."""
    c = ctx()
    tab = c.tab
    if p.is_const():
        return Poly.const(1 / p.const_value())
    if len(p) == 1:
        (m, k), = p.t.items()
        out = Poly.const(1 / k)
        for a, e in m:
            at = tab[a]
            if at.sq is not None and e > 0:
                # 1/s = s / s^2
                inv = Poly.atom(at).mul(p_inv(at.sq), tab)
                out = out.mul(inv.powi(e, tab), tab)
            else:
                out = out.mul(Poly({((a, -e),): Fraction(1)}), tab)
        return out
    # normalise leading coefficient
    lead = min(p.t.items())[1]
    q = c.canon(p.scale(1 / lead))
    k = ("den", q.key())
    if k not in c.memo:
        a = c.new_atom("den")
        a.nonzero = True
        if known_sign(q) > 0:
            a.pos = True
        c.add_def(a, a.z == q.z(tab), q.atoms())
        a.ev = q.ev
        c.memo[k] = a
    a = c.memo[k]
    return Poly({((a.id, -1),): 1 / lead})


def s_div(a, b):
    if a.isnan_ or b.isnan_:
        return S.nan()
    t = ctx().tab
    if b.im is None or not b.im.t:
        if b.re.is_const() and not b.re.const_value():
            return S.nan()
        if not p_nonzero(b.re):
            return S.nan()
        inv = p_inv(b.re)
        re = a.re.mul(inv, t)
        im = a.im.mul(inv, t) if a.im is not None else None
        if b.im is not None and im is None:
            im = Poly({})
        return S(re, im)
    den = b.re.mul(b.re, t).add(b.im.mul(b.im, t))
    if not p_nonzero(den):
        return S.nan()
    inv = S(p_inv(den))
    return s_mul(s_mul(a, b.conjugate()), inv)


def s_floor(a):
    if a.isnan_:
        return a
    if a.kind == "i":
        return a
    if a.im is not None:
        raise TypeError("can't take floor of complex number")
    if a.re.is_const():
        return S(Poly.const(math.floor(a.re.const_value())), kind="i")
    c = ctx()
    k = ("floor", a.re.key())
    if k not in c.memo:
        q = c.new_atom("floor", "I")
        z = a.re.z(c.tab)
        c.add_def(q, z3.And(q.zreal() <= z, z < q.zreal() + 1), a.re.atoms())
        p = a.re
        q.ev = lambda env: math.floor(p.ev(env))
        c.memo[k] = q
    return S(Poly.atom(c.memo[k]), kind="i")


def s_trunc(a):
    if a.kind == "i":
        return a
    if a >= 0:
        return s_floor(a)
    return -s_floor(-a)


def _divmod_atoms(a, b):
    c = ctx()
    if a.isnan_ or b.isnan_:
        return S.nan(), S.nan()
    if a.im is not None or b.im is not None:
        raise TypeError("can't mod complex numbers.")
    both_int = a.kind == "i" and b.kind == "i"
    if b.re.is_const() and not b.re.const_value() or not p_nonzero(b.re):
        if both_int:
            raise ZeroDivisionError("integer division or modulo by zero")
        raise ZeroDivisionError("float modulo")
    if a.is_const() and b.is_const():
        q, r = divmod(a.re.const_value(), b.re.const_value())
        kd = "i" if both_int else "f"
        return S(Poly.const(q), kind=kd), S(Poly.const(r), kind=kd)
    k = ("divmod", a.re.key(), b.re.key())
    if k not in c.memo:
        t = c.tab
        q = c.new_atom("quo", "I")
        pa, pb = a.re, b.re
        at = pa.atoms() | pb.atoms()
        if pa.is_int(t) and pb.is_int(t):
            az, bz = pa.zi(t), pb.zi(t)
            r = az - bz * q.z
            zero = 0
        else:
            az, bz = pa.z(t), pb.z(t)
            r = az - bz * q.zreal()
            zero = z3.RealVal(0)
        c.add_def(q, z3.Or(z3.And(bz > zero, r >= zero, r < bz), z3.And(bz < zero, r <= zero, r > bz)), at)
        q.ev = lambda env: math.floor(pa.ev(env) / pb.ev(env))
        c.memo[k] = q
    q = S(Poly.atom(c.memo[k]), kind="i")
    r = s_sub(a, s_mul(b, q))
    if not both_int:
        q = S(q.re, kind="f")
    return q, r


def s_floordiv(a, b):
    return _divmod_atoms(a, b)[0]


def s_mod(a, b):
    return _divmod_atoms(a, b)[1]


def s_pow(a, b):
    if a.isnan_ or b.isnan_:
        return S.nan()
    if b.im is not None:
        raise Unsupported("complex exponent")
    if b.re.is_const():
        e = b.re.const_value()
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                r = S(Poly.const(1), kind=a.kind if a.im is None else None)
                if a.im is None:
                    return S(a.re.powi(n, ctx().tab), kind=_kind(a, b) if _kind(a, b) != "c" else "f")
                for _ in range(n):
                    r = s_mul(r, a)
                return r
            return s_div(S(Poly.const(1)), s_pow(a, S(Poly.const(-n), kind="i")))
        if e.denominator == 2:
            r = s_sqrt(a)
            return s_pow(r, S(Poly.const(e.numerator), kind="i"))
        if a.is_const():
            v = a.value()
            if not isinstance(v, complex) and v > 0:
                return to_s(float(v) ** float(e))
        return _uf("pow", (a, b), lambda x, y: x ** y, pos=True)
    if b.kind == "i" and not a.is_const():
        return s_pow(a, S(Poly.const(ctx().concretize(b)), kind="i"))
    return _uf("pow", (a, b), lambda x, y: x ** y, pos=True)


def _uf(name, args, fn, pos=False):
    """Uninterpreted function of real arguments (equal arguments, equal result)."""
    c = ctx()
    ps = [c.canon(x.re) for x in args]
    k = ("uf", name) + tuple(p.key() for p in ps)
    if k not in c.memo:
        t = c.tab
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(ps) + 1)))
        a = c.new_atom("uf_" + name)
        at = set()
        for p in ps:
            at |= p.atoms()
        c.add_def(a, a.z == f(*[p.z(t) for p in ps]), at)
        a.pos = pos
        a.ev = lambda env: fn(*[p.ev(env) for p in ps])
        a.tag = name
        c.memo[k] = a
    return S(Poly.atom(c.memo[k]))


def s_abs(a):
    if a.isnan_:
        return a
    c = ctx()
    t = c.tab
    if a.im is not None and a.im.t:
        if not a.re.t:
            return s_abs(S(a.im))
        p = a.re.mul(a.re, t).add(a.im.mul(a.im, t))
        mark_nonneg(p)
        return s_sqrt(S(p))
    p = a.re
    kd = "i" if a.kind == "i" else "f"
    if p.is_const():
        return S(Poly.const(abs(p.const_value())), kind=kd)
    sg = known_sign(p)
    if sg > 0 or known_nonneg(p):
        return S(p, kind=kd)
    if sg < 0 or known_nonneg(p.neg()):
        return S(p.neg(), kind=kd)
    if a.kind == "i":
        return ite(a >= 0, a, -a)
    # |p| : canonical sign and scale
    lead = min(p.t.items())[1]
    q = c.canon(p.scale(1 / lead))
    k = ("abs", q.key())
    if k not in c.memo:
        v = c.new_atom("abs")
        v.nonneg = True
        z = q.z(t)
        c.add_def(v, v.z == z3.If(z >= 0, z, -z), q.atoms())
        v.sq = q.mul(q, t)
        v.ev = lambda env: abs(q.ev(env))
        v.tag = "abs"
        v.arg = q
        c.memo[k] = v
    return S(Poly.atom(c.memo[k]).scale(abs(lead)))


def p_sqrt(p):
    """sqrt of a Poly known to be >= 0 on this path."""
    c = ctx()
    t = c.tab
    if p.is_const():
        v = p.const_value()
        if v == 0:
            return Poly({})
        a, b = isqrt_exact(v.numerator), isqrt_exact(v.denominator)
        if a is not None and b is not None:
            return Poly.const(Fraction(a, b))
        n = v.numerator * v.denominator
        if n < 10 ** 9:
            s, f = squarefree(n)
            k = ("sqrtc", f)
            if k not in c.memo:
                x = c.new_atom(f"sqrt{f}")
                x.pos = True
                x.sq = Poly.const(f)
                c.add_def(x, x.z * x.z == f, ())
                x.ev = lambda env: math.sqrt(f)
                x.tag = "sqrt"
                c.memo[k] = x
            return Poly.atom(c.memo[k]).scale(Fraction(s, v.denominator))
        return Poly.const(Fraction(math.sqrt(v)))
    if len(p) == 1:
        (m, k), = p.t.items()
        if k > 0 and all(t[a].pos or e % 2 == 0 for a, e in m):
            out = p_sqrt(Poly.const(k))
            for a, e in m:
                at = t[a]
                h, odd = divmod(e, 2)
                if h:
                    base = S(Poly.atom(at)) if at.pos else s_abs(S(Poly.atom(at)))
                    out = out.mul(s_pow(base, S(Poly.const(h), kind="i")).re, t)
                if odd:
                    out = out.mul(_sqrt_atom(Poly.atom(at)), t)
            return out
    # perfect square of a single known atom (|q|^2)
    lead = abs(min(p.t.items())[1])
    q = p.scale(1 / lead)
    return p_sqrt(Poly.const(lead)).mul(_sqrt_atom(q), t)


def _sqrt_atom(q):
    c = ctx()
    t = c.tab
    q = c.canon(q)
    k = ("sqrt", q.key())
    if k not in c.memo:
        x = c.new_atom("sqrt")
        x.nonneg = True
        if known_sign(q) > 0:
            x.pos = True
        x.sq = q
        c.add_def(x, x.z * x.z == q.z(t), q.atoms())
        x.ev = lambda env: math.sqrt(max(q.ev(env), 0.0))
        x.tag = "sqrt"
        x.arg = q
        c.memo[k] = x
    return Poly.atom(c.memo[k])


def _sum_of_squares(p):
    t = ctx().tab
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not (t[a].pos or t[a].nonneg):
                return False
    return True


def s_sqrt(a):
    if a.isnan_:
        return a
    if a.im is not None and a.im.t:
        raise Unsupported("square root of a complex value")
    if a.re.is_const() and a.re.const_value() < 0:
        return S.nan()
    if not _sum_of_squares(a.re) and not _square_form(a.re):
        if a < 0:
            return S.nan()
    return S(p_sqrt(a.re))


def _square_form(p):
    """Recorded as the square of something (|z|^2 built from re^2+im^2)."""
    return ("nn", p.key()) in ctx().memo


def mark_nonneg(p):
    ctx().memo[("nn", p.key())] = True


def s_exp(a):
    if a.isnan_:
        return a
    if a.im is not None and a.im.t:
        e = s_exp(S(a.re))
        return s_mul(e, S(s_cos(S(a.im)).re, s_sin(S(a.im)).re))
    if a.is_const():
        v = float(a.value())
        return to_s(math.exp(v)) if v < 700 else S.nan()
    c = ctx()
    t = c.tab
    p = a.re
    if len(p) == 1:
        (m, k), = p.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and t[m[0][0]].tag == "log":
            return S(t[m[0][0]].arg)
    p = c.canon(p)
    k = ("exp", p.key())
    if k not in c.memo:
        x = c.new_atom("exp")
        x.pos = True
        x.tag = "exp"
        x.arg = p
        x.ev = lambda env: math.exp(min(p.ev(env), 700))
        z = p.z(t)
        c.add_def(x, z3.And((x.z < 1) == (z < 0), (x.z == 1) == (z == 0)), p.atoms())
        for y in c.pairs["exp"]:
            yz = y.arg.z(t)
            c.add_def(x, z3.And((x.z < y.z) == (z < yz), (x.z == y.z) == (z == yz)), {y.id})
        for y in c.pairs["log"]:   # y = log(arg):  y < p  <=> arg < exp(p)
            az = y.arg.z(t)
            c.add_def(x, z3.And((y.z < z) == (az < x.z), (y.z == z) == (az == x.z)), {y.id})
        c.pairs["exp"].append(x)
        c.memo[k] = x
    return S(Poly.atom(c.memo[k]))


def s_log(a):
    if a.isnan_:
        return a
    if a.im is not None and a.im.t:
        raise Unsupported("log of a complex value")
    if a.is_const():
        v = float(a.value())
        return to_s(math.log(v)) if v > 0 else S.nan()
    c = ctx()
    t = c.tab
    p = a.re
    if len(p) == 1:
        (m, k), = p.t.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and t[m[0][0]].tag == "exp":
            return S(t[m[0][0]].arg)
    if not known_sign(p) > 0:
        if s_cmp(a, S(Poly.const(0)), "<="):
            return S.nan()
    p = c.canon(p)
    k = ("log", p.key())
    if k not in c.memo:
        x = c.new_atom("log")
        x.tag = "log"
        x.arg = p
        x.ev = lambda env: math.log(max(p.ev(env), 1e-300))
        z = p.z(t)
        c.add_def(x, z3.And((x.z < 0) == (z < 1), (x.z == 0) == (z == 1)), p.atoms())
        for y in c.pairs["log"]:
            yz = y.arg.z(t)
            c.add_def(x, z3.And((x.z < y.z) == (z < yz), (x.z == y.z) == (z == yz)), {y.id})
        for y in c.pairs["exp"]:
            az = y.arg.z(t)
            c.add_def(x, z3.And((x.z < az) == (z < y.z), (x.z == az) == (z == y.z)), {y.id})
        c.pairs["log"].append(x)
        c.memo[k] = x
    return S(Poly.atom(c.memo[k]))


def _trig(name, a, fn):
    if a.isnan_:
        return a
    if a.im is not None and a.im.t:
        raise Unsupported(name + " of a complex value")
    if a.is_const():
        return to_s(fn(float(a.value())))
    r = _uf(name, (a,), fn)
    c = ctx()
    k = ("trigb", name, a.re.key())
    if k not in c.memo:
        c.memo[k] = True
        at, = r.re.atoms()
        at = c.tab[at]
        c.add_def(at, z3.And(at.z <= 1, at.z >= -1), ())
    return r


def s_cos(a):
    # cos is even: canonical sign
    if not a.is_const() and not a.isnan_ and a.im is None and min(a.re.t.items())[1] < 0:
        a = S(a.re.neg())
    return _trig("cos", a, math.cos)


def s_sin(a):
    if not a.is_const() and not a.isnan_ and a.im is None and min(a.re.t.items())[1] < 0:
        return -_trig("sin", S(a.re.neg()), math.sin)
    return _trig("sin", a, math.sin)


def s_cmp(a, b, op):
    if a.isnan_ or b.isnan_:
        return op == "!="
    if (a.im is not None and a.im.t) or (b.im is not None and b.im.t):
        z = Poly({})
        di = (a.im if a.im is not None else z).sub(b.im if b.im is not None else z)
        eqr = _cmp0(a.re.sub(b.re), "==")
        if op == "==":
            return b_and(eqr, _cmp0(di, "=="))
        if op == "!=":
            return b_not(b_and(eqr, _cmp0(di, "==")))
        # numpy orders complex numbers lexicographically
        strict = op[0]
        return b_or(_cmp0(a.re.sub(b.re), strict), b_and(eqr, _cmp0(di, op)))
    return _cmp0(a.re.sub(b.re), op)


def _cmp0(d, op):
    if d.is_const():
        v = d.const_value()
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
    sg = known_sign(d)
    if sg:
        return {"<": sg < 0, "<=": sg < 0, ">": sg > 0, ">=": sg > 0, "==": False, "!=": True}[op]
    if op in (">=", "<") and known_nonneg(d):
        return op == ">="
    if op in ("<=", ">") and known_nonneg(d.scale(-1)):
        return op == "<="
    t = ctx().tab
    if d.is_int(t):
        z = d.zi(t)
        zero = z3.IntVal(0)
    else:
        lead = min(d.t.items())[1]
        d = ctx().canon(d.scale(1 / lead))
        if lead < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        z = d.z(t)
        zero = z3.RealVal(0)
    zz = {"<": z < zero, "<=": z <= zero, ">": z > zero, ">=": z >= zero, "==": z == zero, "!=": z != zero}[op]
    tol = 0.0
    ev = {"<": lambda env: d.ev(env) < 0, "<=": lambda env: d.ev(env) <= 0,
          ">": lambda env: d.ev(env) > 0, ">=": lambda env: d.ev(env) >= 0,
          "==": lambda env: abs(d.ev(env)) <= 1e-12, "!=": lambda env: abs(d.ev(env)) > 1e-12}[op]
    return SBool(zz, d.atoms(), ev)


def ite(c, a, b):
    """Merge of two scalars under a (possibly symbolic) condition."""
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, (SBool, bool, rnp.bool_)) and isinstance(b, (SBool, bool, rnp.bool_)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if a is b:
        return a
    zz = z3.simplify(c.z)
    if z3.is_true(zz):
        return a
    if z3.is_false(zz):
        return b
    cx = ctx()
    if zz.get_id() in cx.pcmemo:
        return a if cx.pcmemo[zz.get_id()][0] else b
    a, b = to_s(a), to_s(b)
    if a.isnan_ or b.isnan_:
        return a if cx.branch(c) else b
    kd = _kind(a, b)
    re = _ite_p(c, zz, a.re, b.re, kd)
    if a.im is None and b.im is None:
        return mk(re, None, kd)
    z = Poly({})
    im = _ite_p(c, zz, a.im if a.im is not None else z, b.im if b.im is not None else z, "f")
    return S(re, im)


def _ite_p(c, zz, p, q, kd):
    if p.key() == q.key():
        return p
    cx = ctx()
    t = cx.tab
    if kd != "i":
        p, q = cx.canon(p), cx.canon(q)
    k = ("ite", zz.get_id(), p.key(), q.key())
    if k not in cx.memo:
        if kd == "i" and p.is_int(t) and q.is_int(t):
            v = cx.new_atom("ite", "I")
            cx.add_def(v, v.z == z3.If(zz, p.zi(t), q.zi(t)), p.atoms() | q.atoms() | c.atoms)
        else:
            v = cx.new_atom("ite")
            cx.add_def(v, v.z == z3.If(zz, p.z(t), q.z(t)), p.atoms() | q.atoms() | c.atoms)
            if known_sign(p) > 0 and known_sign(q) > 0:
                v.pos = True
        ce = c.ev
        v.ev = lambda env: p.ev(env) if ce(env) else q.ev(env)
        cx.memo[k] = (v, zz)
    return Poly.atom(cx.memo[k][0])


def s_max(a, b):
    a_, b_ = to_s(a), to_s(b)
    if a_.isnan_ or b_.isnan_:
        return S.nan()
    if a_.re.key() < b_.re.key():
        a, a_, b, b_ = b, b_, a, a_
    if a_.im is None and b_.im is None and known_nonneg(b_.re.sub(a_.re)):
        return b
    return ite(a_ >= b_, a, b)


def s_min(a, b):
    a_, b_ = to_s(a), to_s(b)
    if a_.isnan_ or b_.isnan_:
        return S.nan()
    if a_.re.key() < b_.re.key():
        a, a_, b, b_ = b, b_, a, a_
    if a_.im is None and b_.im is None and known_nonneg(a_.re.sub(b_.re)):
        return b
    return ite(a_ <= b_, a, b)


def s_sign(a):
    a = to_s(a)
    if a.im is not None and a.im.t:
        # numpy 1.26: sign of the real part (lexicographic)
        r = ite(S(a.re) != 0, s_sign(S(a.re)), s_sign(S(a.im)))
        return S(to_s(r).re, Poly({}))
    k = "i" if a.kind == "i" else "f"
    one, mone, zero = (S(Poly.const(v), kind=k) for v in (1, -1, 0))
    return ite(a > 0, one, ite(a < 0, mone, zero))


def const(x):
    return to_s(x)


def simplify_const(s):
    """Give back a Python number when a symbolic value is in fact constant."""
    if isinstance(s, S) and s.is_const():
        return s
    return s
