"""Canonical multivariate polynomials over symbolic atoms.

Every symbolic scalar the real code manipulates is kept as a polynomial with
rational coefficients over *atoms*.  An atom is a solver variable: either an
input of the harness or the result of a non-polynomial operation (a square
root, an absolute value, a merge of two branches, ...), in which case it
carries its defining constraint.  Exponents may be negative (division by an
atom known to be non-zero), so field identities normalise before they reach
the solver.
"""
from fractions import Fraction
import math

import z3


class Atom:
    __slots__ = ("id", "name", "sort", "z", "zinv", "pos", "nonneg", "nonzero", "defs",
                 "deps", "sq", "sqrt_of", "ev", "base", "lo", "hi", "tag", "arg")

    def __init__(self, aid, name, sort="R", base=False):
        self.id = aid
        self.name = name
        self.sort = sort
        self.z = z3.Real(name) if sort == "R" else z3.Int(name)
        self.zinv = None
        self.pos = False
        self.nonneg = False
        self.nonzero = False
        self.defs = []          # z3 constraints
        self.deps = set()       # atom ids the definition mentions
        self.sq = None          # Poly equal to self**2, if known
        self.sqrt_of = None
        self.ev = None          # numeric evaluator env -> float
        self.base = base
        self.lo = None
        self.hi = None
        self.tag = None
        self.arg = None

    def zreal(self):
        return self.z if self.sort == "R" else z3.ToReal(self.z)

    def __repr__(self):
        return self.name


def F(x):
    return x if isinstance(x, Fraction) else Fraction(x)


class Poly:
    """dict {monomial: Fraction}; monomial = tuple of (atom id, exponent), sorted."""
    __slots__ = ("t", "_key", "_z", "_zi")

    def __init__(self, terms):
        self.t = terms
        self._key = None
        self._z = None
        self._zi = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        c = F(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    # -- queries ------------------------------------------------------
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), Fraction(0)) if self.t else Fraction(0)

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def atoms(self):
        out = set()
        for m in self.t:
            for a, _ in m:
                out.add(a)
        return out

    def __len__(self):
        return len(self.t)

    # -- arithmetic (table: id -> Atom) ---------------------------------
    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def neg(self):
        return Poly({m: -v for m, v in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o, tab):
        if not self.t or not o.t:
            return Poly({})
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = _mono_mul(m1, m2, tab)
                c = c1 * c2
                if red is None:
                    v = r.get(m)
                    if v is None:
                        r[m] = c
                    else:
                        v = v + c
                        if v:
                            r[m] = v
                        else:
                            del r[m]
                else:
                    p = Poly({m: c}).mul(red, tab)
                    extra = p if extra is None else extra.add(p)
        p = Poly(r)
        return p if extra is None else p.add(extra)

    def powi(self, n, tab):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r.mul(b, tab)
            n >>= 1
            if n:
                b = b.mul(b, tab)
        return r

    # -- to solver ----------------------------------------------------
    def z(self, tab):
        if self._z is None:
            terms = []
            for m, c in self.t.items():
                fs = []
                for aid, e in m:
                    a = tab[aid]
                    if e > 0:
                        fs += [a.zreal()] * e
                    else:
                        if a.zinv is None:
                            a.zinv = z3.Real("inv!" + a.name)
                        fs += [a.zinv] * (-e)
                if c != 1 or not fs:
                    fs = [z3.RealVal(str(c))] + fs
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            self._z = z3.RealVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
        return self._z

    def is_int(self, tab):
        return all(c.denominator == 1 for c in self.t.values()) and all(
            tab[a].sort == "I" and e > 0 for m in self.t for a, e in m)

    def zi(self, tab):
        """As an integer-sorted term; only for is_int() polynomials."""
        if self._zi is None:
            terms = []
            for m, c in self.t.items():
                t = z3.IntVal(int(c))
                for aid, e in m:
                    for _ in range(e):
                        t = t * tab[aid].z
                terms.append(t)
            self._zi = z3.IntVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(*terms))
        return self._zi

    def ev(self, env):
        s = 0.0
        for m, c in self.t.items():
            v = c.numerator / c.denominator
            for aid, e in m:
                v *= env(aid) ** e
            s += v
        return s


def _mono_mul(m1, m2, tab):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    red = None
    for a, e in m2:
        if a in d:
            ne = d[a] + e
            at = tab[a]
            if at.sq is not None and ne >= 2:
                k, ne = divmod(ne, 2)
                p = at.sq.powi(k, tab)
                red = p if red is None else red.mul(p, tab)
            if ne:
                d[a] = ne
            else:
                del d[a]
        else:
            d[a] = e
    return tuple(sorted(d.items())), red


def squarefree(n):
    """n = s*s*f with f squarefree (trial division; n below 10**9)."""
    s, f, p = 1, 1, 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k & 1:
            f *= p
        p += 1
    f *= n
    return s, f


def isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None
