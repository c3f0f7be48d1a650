"""Stand-ins for numpy, scipy.sparse, math, random, h5py and the spherical
transform libraries, used while the code under check runs symbolically.

numpy operations are interpreted element by element over symbolic scalars
(`arr`); the C libraries pyssht and pys2let are called for real: on concrete
arguments directly, on symbolic arguments through the matrix of the (linear)
transform, built column by column with the installed library.
"""
import builtins
import functools
import importlib
import math as rmath
import sys
import types

import numpy as rnp

from . import arr, core
from .arr import (SymArray, asarray, do_function, do_ufunc, emap, fix_ints, from_native, has_sym, is_concrete, native,
                  zeros, _dt, _raw)
from .core import S, SBool, Unsupported, is_sym, to_s, as_bool


def involves(x):
    """Any symbolic scalar / SymArray among the operands?"""
    if isinstance(x, (S, SBool, SymArray)) or hasattr(x, "symsparse"):
        return True
    if isinstance(x, (list, tuple)):
        return any(involves(e) for e in x)
    if isinstance(x, dict):
        return any(involves(e) for e in x.values())
    return False


def real_function(x):
    return x


# ---------------------------------------------------------------------------
# numpy
def _creation(fill):
    def f(shape, dtype=float, order="C", **k):
        return zeros(shape, dtype if dtype is not None else float, fill)
    return f


def uninit(shape, dtype=float, order="C", **k):
    """np.empty: contents are arbitrary."""
    dt = _dt(dtype if dtype is not None else float)
    a = zeros(shape, dt)
    if core.CTX is None or dt.kind not in "fc" or a.size > 400:
        return a
    c = core.ctx()
    r = a.raw
    for i in rnp.ndindex(a.shape):
        x = S(core.Poly.atom(new_base("uninit")))
        if dt.kind == "c":
            x = S(x.re, core.Poly.atom(new_base("uninit")))
        r[i] = x
    return a


def new_base(prefix):
    c = core.ctx()
    n = c.names.get("#" + prefix, 0)
    c.names["#" + prefix] = n + 1
    return c.new_atom(f"{prefix}_{n}", base=True)


def _eye(N, M=None, k=0, dtype=float, **kw):
    return from_native(rnp.eye(fix_ints(N), None if M is None else fix_ints(M), k, dtype=_dt(dtype)))


def _np_array(x, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    return asarray(x, dtype, copy=True if copy is None else copy, ndmin=ndmin)


def _np_asarray(x, dtype=None, order=None, **k):
    return asarray(x, dtype)


def _arange(*a, dtype=None, **k):
    a = [x.__index__() if isinstance(x, S) and x.kind == "i" else x for x in a]
    if any(is_sym(x) for x in a):
        raise Unsupported("arange with symbolic real bounds")
    return from_native(rnp.arange(*a, dtype=dtype, **k))


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = fix_ints(num)
    if not (is_sym(start) or is_sym(stop)):
        return from_native(rnp.linspace(start, stop, num, endpoint, retstep, dtype, axis))
    div = (num - 1) if endpoint else num
    step = (to_s(stop) - to_s(start)) / div if div > 0 else to_s(0.0)
    a = rnp.empty(num, dtype=object)
    for i in range(num):
        a[i] = to_s(start) + step * i
    r = SymArray(a, float)
    return (r, step) if retstep else r


def _full(shape, fill_value, dtype=None, **k):
    return arr.full(shape, fill_value, dtype)


def _diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        n = v.size + abs(k)
        out = zeros((n, n), v.ld)
        for i in range(v.size):
            out[i + max(-k, 0), i + max(k, 0)] = v[i]
        return out
    return SymArray(rnp.diagonal(v.raw, k).copy(), v.ld)


def _isscalar(x):
    return isinstance(x, (S, SBool)) or rnp.isscalar(x)


def _ndim(x):
    if isinstance(x, (S, SBool)):
        return 0
    if hasattr(x, "symsparse"):
        return 2
    return rnp.ndim(x) if not (isinstance(x, (list, tuple)) and has_sym(x)) else asarray(x).ndim


def _shape(x):
    if isinstance(x, (S, SBool)):
        return ()
    return x.shape if hasattr(x, "shape") else asarray(x).shape


def _size(x, axis=None):
    if axis is None:
        return int(rnp.prod(_shape(x), dtype=int))
    return _shape(x)[axis]


def _vectorize(pyfunc, **kw):
    def g(*args):
        args = [asarray(a) for a in args]
        sh = rnp.broadcast_shapes(*[a.shape for a in args])
        br = [rnp.broadcast_to(a.raw, sh) for a in args]
        out = rnp.empty(sh, dtype=object)
        for i in rnp.ndindex(sh):
            out[i] = pyfunc(*[b[i] for b in br])
        return SymArray(out) if sh else out[()]
    return g


def _fromiter(it, dtype, count=-1, **k):
    return asarray(list(it), dtype)


def _atleast(n):
    def f(*xs):
        out = []
        for x in xs:
            a = asarray(x)
            out.append(asarray(a, ndmin=n) if n < 3 else a)
        return out[0] if len(out) == 1 else out
    return f


def _astype_scalar(dt):
    return dt


def _unw(t):
    return getattr(t, "_np", t) if isinstance(t, _ScalarMeta) else t


def _issubdtype(a, b):
    return rnp.issubdtype(_unw(a), _unw(b))


def _result_type(*a):
    out = []
    for x in a:
        x = _unw(x)
        if isinstance(x, SymArray):
            x = x.ld
        elif isinstance(x, (S, SBool)):
            x = arr.elem_dtype(x)
        out.append(x)
    return rnp.result_type(*out)


NP_OVER = {
    "issubdtype": _issubdtype, "result_type": _result_type,
    "can_cast": lambda a, b, casting="safe": rnp.can_cast(a.ld if isinstance(a, SymArray) else _unw(a), _unw(b), casting),
    "promote_types": lambda a, b: rnp.promote_types(_unw(a), _unw(b)),
    "may_share_memory": lambda a, b, **k: rnp.may_share_memory(a, b), "shares_memory": lambda a, b, **k: rnp.shares_memory(a, b),
    "zeros": _creation(0), "ones": _creation(1), "empty": uninit, "full": _full,
    "eye": _eye, "identity": lambda n, dtype=float, **k: _eye(n, dtype=dtype),
    "array": _np_array, "asarray": _np_asarray, "asanyarray": _np_asarray, "ascontiguousarray": _np_asarray,
    "asfarray": lambda x, dtype=float: asarray(x, dtype), "asarray_chkfinite": _np_asarray,
    "require": lambda a, dtype=None, requirements=None: asarray(a, dtype),
    "arange": _arange, "linspace": _linspace, "diag": _diag,
    "isscalar": _isscalar, "ndim": _ndim, "shape": _shape, "size": _size,
    "vectorize": _vectorize, "fromiter": _fromiter,
    "atleast_1d": _atleast(1), "atleast_2d": _atleast(2),
    "empty_like": lambda a, dtype=None, **k: uninit(_shape(a), dtype if dtype is not None else asarray(a).ld),
}


def _fix_arg(a):
    if isinstance(a, S) and a.kind == "i" and not a.is_const():
        return a
    return a


def wrap_callable(name, f, override=None):
    is_ufunc = isinstance(f, rnp.ufunc)

    @functools.wraps(f)
    def g(*args, **kwargs):
        if override is not None:
            return override(*args, **kwargs)
        if involves(args) or involves(kwargs):
            if is_ufunc:
                kwargs = dict(kwargs)
                args = list(args)
                if len(args) > f.nin:
                    kwargs["out"] = args[f.nin]
                    args = args[:f.nin]
                if any(hasattr(a, "symsparse") for a in args):
                    if name in ("matmul",):
                        return args[0] @ args[1]
                    if name in ("multiply",):
                        return args[0].multiply(args[1]) if hasattr(args[0], "symsparse") else args[1].multiply(args[0])
                    if name in ("conjugate", "conj"):
                        return args[0].conj()
                    if name in ("absolute", "abs", "sqrt", "square"):
                        return args[0]._map(lambda x: arr.apply_el(f.__name__, f, (x,)))
                    raise Unsupported(f"numpy.{name} of a sparse matrix")
                return do_ufunc(f, "__call__", tuple(args), kwargs)
            if any(hasattr(a, "symsparse") for a in args):
                if name == "dot":
                    return args[0] @ args[1]
                if name in ("ndim", "shape"):
                    return getattr(args[0], name)
            return do_function(f, args, kwargs)
        r = f(*args, **kwargs)
        if isinstance(r, rnp.generic) and not isinstance(r, (rnp.str_, rnp.bytes_)):
            # stay a numpy scalar: the code may use its attributes
            if name == "sqrt" and core.CTX is not None:
                return arr.apply_el("sqrt", f, (args[0] if not isinstance(args[0], rnp.generic) else args[0].item(),)) \
                    if isinstance(args[0], (int, float, rnp.number)) and not isinstance(args[0], complex) else r
            return r
        return from_native(r)
    if is_ufunc:
        for m in ("reduce", "accumulate", "outer", "at"):
            setattr(g, m, functools.partial(_ufunc_method, f, m))
    g.__name__ = getattr(f, "__name__", name)
    g.real = f
    return g


def _ufunc_method(f, method, *args, **kwargs):
    if involves(args) or involves(kwargs):
        return do_ufunc(f, method, args, dict(kwargs))
    return from_native(getattr(f, method)(*args, **kwargs))


class NumpyShim(types.ModuleType):
    def __init__(self, real, name, over=None):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over or {}

    def __getattr__(self, name):
        if name.startswith("__"):
            return getattr(self._real, name)
        if name in self._over:
            v = self._over[name]
        else:
            r = getattr(self._real, name)
            if isinstance(r, type) or not callable(r):
                if isinstance(r, types.ModuleType):
                    v = SUBMODS.get(r.__name__, None)
                    if v is None:
                        v = NumpyShim(r, r.__name__)
                elif isinstance(r, type) and issubclass(r, rnp.generic):
                    v = scalar_type(r)
                else:
                    v = r
            else:
                v = wrap_callable(name, r)
        self.__dict__[name] = v
        return v


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, S):
            return issubclass(x.dtype.type, cls._np)
        return isinstance(x, cls._np)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_np", c), cls._np)

    def __call__(cls, *a, **k):
        if a and involves(a[0]):
            if isinstance(a[0], (S, SBool)):
                return arr.cast_scalar(a[0], rnp.dtype(cls._np))
            return asarray(a[0], cls._np)
        return cls._np(*a, **k)

    def __eq__(cls, o):
        return cls is o or cls._np == o

    def __hash__(cls):
        return hash(cls._np)


_ST = {}


def scalar_type(t):
    """numpy scalar types: callable on symbolic scalars, usable as dtypes."""
    if t not in _ST:
        ns = {"_np": t}
        try:
            ns["dtype"] = rnp.dtype(t)
        except TypeError:
            pass
        _ST[t] = _ScalarMeta(t.__name__, (), ns)
    return _ST[t]


SUBMODS = {}

# ---------------------------------------------------------------------------
# randomness: both modes share the distributions; the drawer differs
class Random:
    """Normal/uniform/laplace draws, supplied one by one by `draw(tag, name)`.  The draws of the unseeded
    stream are numbered in order; a seed starts a stream of its own, which repeats under the same seed."""

    def __init__(self, draw, mk, state, key=None):
        self._value = draw
        self._mk = mk
        self._state = state                 # () -> dict of the global stream
        self._own = None if key is None else {"key": key}

    def _cur(self):
        return self._state() if self._own is None else self._own

    def _draw(self, tag):
        p = {"normal": "rn", "uniform": "ru", "laplace": "rl"}[tag]
        st = self._cur()
        n = st.get(p, 0)
        st[p] = n + 1
        return self._value(tag, f"{p}{st.get('key', '')}_{n}")

    def _gen(self, tag, size):
        if size is None:
            return self._draw(tag)
        shape = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
        shape = tuple(int(s.__index__()) for s in shape)
        n = 1
        for s in shape:
            n *= s
        return self._mk([self._draw(tag) for _ in range(n)], shape)

    def randn(self, *d):
        return self._gen("normal", d if d else None)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._gen("normal", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (getattr(loc, "shape", ()) or getattr(scale, "shape", ())):
            size = getattr(loc, "shape", ()) or getattr(scale, "shape", ())
        return loc + scale * self._gen("normal", size)

    def rand(self, *d):
        return self._gen("uniform", d if d else None)

    def random(self, size=None, dtype=None, out=None):
        return self._gen("uniform", size)

    random_sample = sample = ranf = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._gen("uniform", size)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._gen("laplace", size)

    def exponential(self, scale=1.0, size=None):
        # -log(U) is Exp(1)
        u = self._gen("uniform", size)
        return -scale * self._log(u)

    standard_exponential = lambda self, size=None: self.exponential(1.0, size)

    def multivariate_normal(self, mean, cov, size=None):
        raise Unsupported("multivariate_normal")

    def seed(self, seed=None):
        if seed is not None:
            st = self._cur()
            st.clear()
            st["key"] = f"s{seed}"

    def default_rng(self, seed=None):
        if isinstance(seed, Random):
            return seed
        return self if seed is None else Random(self._value, self._mk, self._state, f"s{seed}")

    def RandomState(self, seed=None):
        return self.default_rng(seed)

    def Generator(self, bits=None):
        return self.default_rng(bits)

    def PCG64(self, seed=None):
        return seed

    def get_state(self, *a, **k):
        return dict(self._cur())

    def set_state(self, state):
        st = self._cur()
        st.clear()
        st.update(state)

    def randint(self, low, high=None, size=None, dtype=int):
        if size is None:
            return 0 if high is None else low
        raise Unsupported("randint")

    integers = randint

    def _log(self, u):
        return NP.log(u)


def _sym_draw(tag, name):
    c = core.ctx()
    if tag == "uniform" and c.fixed_uniform is not None:
        return to_s(c.fixed_uniform)
    if tag == "normal" and c.fixed_normal:
        v = core.numbered_draw(name, c.fixed_normal)
        if v is not None:
            c.numbers.append(v)
            return to_s(v)
    if name in c.base:          # the stream was rewound
        return S(core.Poly.atom(c.base[name]))
    a = c.new_atom(name, base=True)
    if tag == "uniform":
        a.lo, a.hi = 0, 1
        a.pos = True
        c.add_def(a, a.z < 1, ())
    c.draws.append((a, tag))
    return S(core.Poly.atom(a))


def _sym_mk(vals, shape):
    return arr.wrap_list(vals, shape, float)


RNG = Random(_sym_draw, _sym_mk, lambda: core.ctx().rng)


class _RandomShim(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(RNG, name, None)
        if v is None:
            raise Unsupported(f"numpy.random.{name}")
        return v


class _Dist:
    def __init__(self, tag):
        self.tag = tag

    def rvs(self, *a, loc=0, scale=1, size=None, random_state=None):
        if len(a) > 0:
            loc = a[0]
        if len(a) > 1:
            scale = a[1]
        if len(a) > 2:
            size = a[2]
        return RNG.default_rng(random_state)._gen(self.tag, size) * scale + loc

    def __call__(self, loc=0, scale=1):
        return _Frozen(self, loc, scale)


class _Frozen:
    def __init__(self, d, loc, scale):
        self.d, self.loc, self.scale = d, loc, scale

    def rvs(self, size=None, random_state=None):
        return self.d.rvs(loc=self.loc, scale=self.scale, size=size, random_state=random_state)


class _Stats(types.ModuleType):
    laplace = _Dist("laplace")
    norm = _Dist("normal")
    uniform = _Dist("uniform")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"scipy.stats.{name}")


# ---------------------------------------------------------------------------
# scipy.sparse
class _SparseData(SymArray):
    """The stored entries of a sparse matrix; writing to them changes the matrix."""

    def __new__(cls, parent, pos, shape):
        raw = rnp.empty(len(pos), dtype=object)
        for k, i in enumerate(pos):
            raw[k] = parent.d.raw[i]
        a = raw.reshape(shape).view(cls)
        a._ld = parent.dtype
        a._parent, a._pos = parent, pos
        return a

    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)
        self._parent = self._pos = None

    def __setitem__(self, idx, value):
        super().__setitem__(idx, value)
        if self._parent is not None:
            self._parent._store(self._pos, self)


class SymSparse:
    symsparse = True
    __array_ufunc__ = None
    __array_priority__ = 9000
    isarray = False

    def __init__(self, dense, fmt="csr", isarray=None):
        self.d = asarray(dense)
        if self.d.ndim == 1:
            self.d = self.d.reshape(1, -1)
        if self.d.ndim != 2:
            raise TypeError("expected dimension <= 2 array or matrix")
        self.format = fmt
        if isarray is not None:
            self.isarray = isarray

    def _new(self, d, fmt=None):
        return SymSparse(d, fmt or self.format, self.isarray)

    @property
    def shape(self):
        return self.d.shape

    @property
    def dtype(self):
        return self.d.ld

    ndim = 2

    @property
    def nnz(self):
        return sum(1 for x in self.d.raw.flat if is_sym(x) or x != 0)

    @property
    def size(self):
        return self.nnz

    @property
    def data(self):
        if self.format == "dia" and all(i == j or not is_sym(self.d.raw[i, j]) and self.d.raw[i, j] == 0
                                        for i in range(self.shape[0]) for j in range(self.shape[1])):
            return _SparseData(self, [(i, i) for i in range(min(self.shape))], (1, -1))
        return _SparseData(self, [i for i in rnp.ndindex(*self.shape) if is_sym(self.d.raw[i]) or self.d.raw[i] != 0], (-1,))

    @data.setter
    def data(self, v):
        old = self.data
        self._store(old._pos, asarray(v))

    def _store(self, pos, v):
        if v.size != len(pos):
            raise ValueError("data of the wrong length")
        if rnp.result_type(v.ld, self.dtype) != self.dtype:
            self.d = self.d.astype(rnp.result_type(v.ld, self.dtype))
        if not self.d.raw.flags.writeable:
            self.d = self.d.copy()
        for i, x in zip(pos, v.raw.reshape(-1)):
            self.d.raw[i] = x

    @property
    def T(self):
        return self._new(self.d.T)

    def transpose(self, *a, **k):
        return self._new(self.d.T)

    def conj(self, *a, **k):
        return self._new(self.d.conj())

    conjugate = conj

    def getH(self):
        return self._new(self.d.conj().T)

    @property
    def H(self):
        return self.getH()

    @property
    def real(self):
        return self._new(self.d.real)

    @property
    def imag(self):
        return self._new(self.d.imag)

    def toarray(self, *a, **k):
        return self.d.copy()

    todense = toarray

    @property
    def A(self):
        return self.d.copy()

    def _map(self, f):
        return self._new(emap(f, self.d))

    def copy(self):
        return self._new(self.d.copy())

    def astype(self, dt, **k):
        return self._new(self.d.astype(dt))

    def asformat(self, fmt, **k):
        return self._new(self.d, fmt or self.format)

    def __getattr__(self, name):
        if name in ("tocsr", "tocsc", "tocoo", "todia", "tolil", "tobsr", "todok"):
            return lambda *a, **k: self._new(self.d, name[2:])
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("eliminate_zeros", "sum_duplicates", "sort_indices", "sorted_indices"):
            return lambda *a, **k: None
        raise AttributeError(f"{self.format}_matrix has no attribute {name}")

    def diagonal(self, k=0):
        return SymArray(rnp.diagonal(self.d.raw, k).copy(), self.dtype)

    def trace(self, *a, **k):
        return self.d.trace()

    def sum(self, axis=None, **k):
        r = self.d.sum(axis=axis)
        if axis is not None and not self.isarray:
            r = r.reshape((1, -1) if axis in (0, -2) else (-1, 1))
        return r

    def multiply(self, o):
        return self._new(self.d * _dense(o))

    def power(self, n, dtype=None):
        return self._new(self.d ** n)

    def _mm(self, o):
        if hasattr(o, "symsparse"):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            return self._new(arr.dot(self.d, o.d), "csr")
        o = asarray(o)
        if o.ndim == 0:
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        if o.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        return arr.dot(self.d, o)

    def __matmul__(self, o):
        return self._mm(o)

    def __rmatmul__(self, o):
        if hasattr(o, "symsparse"):
            return o._mm(self)
        return arr.dot(asarray(o), self.d)

    def dot(self, o):
        if _is_scalar(o):
            return self._new(self.d * _sc(o))
        return self._mm(o)

    def __mul__(self, o):
        if _is_scalar(o):
            return self._new(self.d * _sc(o))
        if self.isarray:
            return self.multiply(o)
        return self._mm(o)

    def __rmul__(self, o):
        if _is_scalar(o):
            return self._new(_sc(o) * self.d)
        if self.isarray:
            return self.multiply(o)
        return self.__rmatmul__(o)

    def __truediv__(self, o):
        if _is_scalar(o):
            return self._new(self.d / _sc(o))
        return self.d / _dense(o)

    def __add__(self, o):
        if hasattr(o, "symsparse"):
            return self._new(self.d + o.d)
        if _is_scalar(o):
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        return self.d + asarray(o)

    __radd__ = __add__

    def __sub__(self, o):
        if hasattr(o, "symsparse"):
            return self._new(self.d - o.d)
        return self.d - asarray(o)

    def __rsub__(self, o):
        return asarray(o) - self.d

    def __neg__(self):
        return self._new(-self.d)

    def __abs__(self):
        return self._new(abs(self.d))

    def __pow__(self, n):
        if self.isarray:
            return self.power(n)
        r = self
        for _ in range(int(n) - 1):
            r = r._mm(self)
        return r

    def __getitem__(self, i):
        r = self.d[i]
        if isinstance(r, SymArray):
            return self._new(r)
        return r

    def __setitem__(self, i, v):
        self.d[i] = _dense(v) if hasattr(v, "symsparse") else v

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz() or shape[0]")

    def getnnz(self, *a):
        return self.nnz

    def getrow(self, i):
        return self._new(self.d[i])

    def getcol(self, i):
        return self._new(self.d[:, i].reshape(-1, 1))

    def nonzero(self):
        return self.d.nonzero()


def _dense(o):
    return o.d if hasattr(o, "symsparse") else asarray(o)


def _is_scalar(o):
    return isinstance(o, (S, SBool, int, float, complex, rnp.number)) or (isinstance(o, rnp.ndarray) and o.ndim == 0)


def _sc(o):
    return o[()] if isinstance(o, rnp.ndarray) else o


class _SparseMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymSparse) and (cls._fmt is None or x.format == cls._fmt)


def _mk_sparse_type(fmt, isarray):
    def construct(cls, arg, shape=None, dtype=None, copy=False):
        if hasattr(arg, "symsparse"):
            d = arg.d.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[1], tuple) and _is_scalar(arg[0]):
            d = zeros(arg, dtype or float)
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list, rnp.ndarray)) and fmt != "dia":
            data, (i, j) = arg
            data = asarray(data)
            i = rnp.asarray(native(asarray(i)))
            j = rnp.asarray(native(asarray(j)))
            if shape is None:
                shape = (int(i.max()) + 1, int(j.max()) + 1)
            d = zeros(shape, data.ld)
            for v, a, b in zip(data.raw.reshape(-1), i, j):
                d.raw[a, b] = d.raw[a, b] + v
        elif isinstance(arg, tuple):
            import scipy.sparse as rs
            if not is_concrete(arg):
                raise Unsupported("sparse constructor from symbolic index structure")
            d = from_native(getattr(rs, fmt + "_matrix")(native(arg), shape=shape).toarray())
        else:
            d = asarray(arg)
            if copy:
                d = d.copy()
        if dtype is not None:
            d = d.astype(dtype)
        return SymSparse(d, fmt, isarray)

    meta = type("_M", (_SparseMeta,), {"__call__": construct, "_fmt": fmt})
    return meta(f"{fmt}_{'array' if isarray else 'matrix'}", (), {"_fmt": fmt})


class _SparseBase(metaclass=_SparseMeta):
    _fmt = None


def _sp_identity(n, dtype="d", format=None):
    return SymSparse(_eye(n, dtype=rnp.dtype(dtype)), format or "dia")


def _sp_eye(m, n=None, k=0, dtype=float, format=None):
    return SymSparse(_eye(m, n, k, dtype), format or "dia")


def _sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None, isarray=False):
    single = _is_scalar(offsets)
    if single:
        a = asarray(diagonals)
        diags = [a] if a.ndim <= 1 else [a[0]]
        offsets = [offsets]
    else:
        diags = [asarray(d, ndmin=1) for d in diagonals]
        offsets = list(offsets)
    diags = [asarray(d, ndmin=1) for d in diags]
    if shape is None:
        m = diags[0].size + abs(offsets[0])
        shape = (m, m)
    ld = rnp.result_type(*[d.ld for d in diags])
    if ld.kind in "iub" and dtype is None:
        pass
    out = zeros(shape, dtype or ld)
    for d, o in zip(diags, offsets):
        o = int(o)
        L = min(shape[0] + o, shape[1] - o, *shape)
        if d.size not in (1, L):
            raise ValueError("Diagonal length (index 0) does not agree with matrix size.")
        for i in range(L):
            out[i + max(-o, 0), i + max(o, 0)] = d[i] if d.size > 1 else d[0]
    return SymSparse(out, format or "dia", isarray)


def _sp_inv(A):
    if not hasattr(A, "symsparse"):
        raise TypeError("Input must be a sparse matrix")
    try:
        return SymSparse(arr.inv(A.d), A.format, A.isarray)
    except rnp.linalg.LinAlgError as e:
        raise RuntimeError("Factor is exactly singular") from e


def _sp_solve(A, b, **k):
    return arr.solve(_dense(A), b)


def _linop_solve(A, **k):
    raise Unsupported("sparse factorisation object")


class _SparseLinalg(types.ModuleType):
    inv = staticmethod(_sp_inv)
    spsolve = staticmethod(_sp_solve)
    norm = staticmethod(lambda A, ord=None, **k: arr.norm(A.d, ord))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"scipy.sparse.linalg.{name}")


class _Sparse(types.ModuleType):
    issparse = staticmethod(lambda x: hasattr(x, "symsparse"))
    isspmatrix = staticmethod(lambda x: hasattr(x, "symsparse") and not x.isarray)
    isspmatrix_csr = staticmethod(lambda x: hasattr(x, "symsparse") and x.format == "csr")
    identity = staticmethod(_sp_identity)
    eye = staticmethod(_sp_eye)
    eye_array = staticmethod(lambda m, n=None, *, k=0, dtype=float, format=None: SymSparse(_eye(m, n, k, dtype), format or "dia", True))
    diags = staticmethod(_sp_diags)
    diags_array = staticmethod(lambda d, *, offsets=0, shape=None, format=None, dtype=None: _sp_diags(d, offsets, shape, format, dtype, True))
    spdiags = staticmethod(lambda data, diags, m=None, n=None, format=None: _sp_diags([asarray(data).reshape(-1)] if _is_scalar(diags) else data, [diags] if _is_scalar(diags) else diags, (m, n) if n else m, format))
    spmatrix = _SparseBase
    sparray = _SparseBase
    base = _SparseBase
    vstack = staticmethod(lambda bl, **k: SymSparse(do_function(rnp.vstack, ([b.d for b in bl],), {})))
    hstack = staticmethod(lambda bl, **k: SymSparse(do_function(rnp.hstack, ([b.d for b in bl],), {})))
    kron = staticmethod(lambda a, b, **k: SymSparse(do_function(rnp.kron, (_dense(a), _dense(b)), {})))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"scipy.sparse.{name}")


for _f in ("csr", "csc", "coo", "dia", "lil", "dok", "bsr"):
    setattr(_Sparse, f"{_f}_matrix", _mk_sparse_type(_f, False))
    setattr(_Sparse, f"{_f}_array", _mk_sparse_type(_f, True))

# ---------------------------------------------------------------------------
# math / cmath
def _m1(name):
    rf = getattr(rmath, name)
    el = {"fabs": "absolute", "acos": "arccos", "asin": "arcsin", "atan": "arctan"}.get(name, name)

    def f(x, *a):
        if isinstance(x, rnp.ndarray) and isinstance(x, SymArray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.reshape(-1)[0]
        if is_sym(x):
            if name in ("sqrt", "log"):
                x = to_s(x)
                bad = (x < 0) if name == "sqrt" else (x <= 0)
                if bool(bad):
                    raise ValueError("math domain error")
            if name == "log" and a:
                return arr.apply_el("log", None, (x,)) / rmath.log(a[0])
            r = arr.EL[el](x)
            if name in ("floor", "ceil", "trunc"):
                r = S(r.re, kind="i")
            return r
        if name == "sqrt" and isinstance(x, (int, float, rnp.number)) and core.CTX is not None and x >= 0:
            return arr.apply_el("sqrt", rnp.sqrt, (x.item() if isinstance(x, rnp.number) else x,))
        return rf(x, *a)
    return f


class _Math(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        r = getattr(rmath, name)
        if name in ("sqrt", "log", "exp", "sin", "cos", "tan", "floor", "ceil", "trunc", "fabs", "log10", "log2", "log1p",
                    "expm1", "acos", "asin", "atan", "radians", "degrees"):
            return _m1(name)
        if name in ("isnan", "isinf", "isfinite"):
            return lambda x: (arr.EL[name](x) if is_sym(x) else r(x))
        if name == "pow":
            return lambda a, b: a ** b if is_sym(a) or is_sym(b) else r(a, b)
        if name == "hypot":
            return lambda a, b: arr._hypot(a, b) if is_sym(a) or is_sym(b) else r(a, b)
        if name in ("fsum", "prod", "sumprod"):
            return lambda xs, *a, **k: (builtins.sum(xs) if name == "fsum" else r(xs, *a, **k))
        return r


# ---------------------------------------------------------------------------
# pyssht / pys2let: linear transforms of the installed libraries
_LIN = {}
SMALL = 1e-13


def _clean(M):
    M = rnp.array(M)
    mx = abs(M).max() if M.size else 0
    if rnp.iscomplexobj(M):
        re, im = M.real.copy(), M.imag.copy()
        re[abs(re) < SMALL * mx] = 0
        im[abs(im) < SMALL * mx] = 0
        return re + 1j * im
    M = M.copy()
    M[abs(M) < SMALL * mx] = 0
    return M


def _linear_sparse(key, x, call):
    """A large operand of which only a few entries are symbolic."""
    flat = x.raw.reshape(-1)
    base = rnp.zeros(x.size, x.ld)
    sym = []
    for i, e in enumerate(flat):
        e = to_s(e)
        if e.isnan_:
            raise Unsupported("NaN handed to a transform")
        if e.is_const():
            base[i] = e.value()
        else:
            sym.append((i, e))
    if len(sym) > 64:
        raise Unsupported("transform of a large symbolic array")
    r0 = call(base.reshape(x.shape).copy())
    if isinstance(r0, tuple):
        raise Unsupported("transform of a large symbolic array")
    z = call(rnp.zeros(x.shape, x.ld))
    cols, vals = [], []
    for i, e in sym:
        for part, v, co in (("re", 1, S(e.re)), ("im", 1j, None if e.im is None else S(e.im))):
            if co is None or (part == "im" and x.ld.kind != "c"):
                continue
            b = rnp.zeros(x.size, x.ld)
            b[i] = v
            cols.append(rnp.array(call(b.reshape(x.shape))).reshape(-1) - z.reshape(-1))
            vals.append(co)
    M = _clean(rnp.array(cols).T)
    acc = arr.dot(from_native(M), arr.wrap_list(vals, (len(vals),), float)) + from_native(rnp.array(r0).reshape(-1))
    if acc.ld != r0.dtype:
        acc = acc.astype(r0.dtype)
    return acc.reshape(r0.shape)


def linear_apply(fn, key, xs, call):
    """fn is real-linear in the (symbolic) arrays xs; matrices built from the real library."""
    sizes = [x.size for x in xs]
    shapes = [x.shape for x in xs]
    lds = [x.ld for x in xs]
    if len(xs) == 1 and sizes[0] > 1500:
        return _linear_sparse(key, xs[0], call)
    k = (key, tuple(shapes), tuple(str(d) for d in lds))
    if k not in _LIN:
        mats = []
        base = [rnp.zeros(s, d) for s, d in zip(shapes, lds)]
        r0 = call(*[b.copy() for b in base])
        tup = isinstance(r0, tuple)
        outs = r0 if tup else (r0,)
        oshape = [o.shape for o in outs]
        for a, (sh, d, n) in enumerate(zip(shapes, lds, sizes)):
            cols = {"re": [], "im": []}
            for i in range(n):
                for part, v in (("re", 1), ("im", 1j)):
                    if part == "im" and d.kind != "c":
                        continue
                    args = [b.copy() for b in base]
                    args[a].reshape(-1)[i] = v
                    r = call(*args)
                    r = r if tup else (r,)
                    cols[part].append([rnp.array(o).reshape(-1) for o in r])
            mats.append({p: [_clean(rnp.array([c[o] for c in cs]).T) for o in range(len(outs))] if cs else None
                         for p, cs in cols.items()})
        _LIN[k] = (mats, oshape, tup, [o.dtype for o in outs])
    mats, oshape, tup, odt = _LIN[k]
    res = []
    for o in range(len(oshape)):
        acc = None
        for x, m in zip(xs, mats):
            v = x.ravel()
            if x.ld.kind == "c":
                t = arr.dot(from_native(m["re"][o]), v.real)
                Mi = m["im"][o]
                if rnp.array_equal(Mi, 1j * m["re"][o]) or rnp.allclose(Mi, 1j * m["re"][o], rtol=1e-11, atol=1e-13):
                    t = arr.dot(from_native(m["re"][o]), v)
                else:
                    t = t + arr.dot(from_native(Mi), v.imag)
            else:
                t = arr.dot(from_native(m["re"][o]), v)
            acc = t if acc is None else acc + t
        acc = acc.astype(odt[o]) if acc.ld != odt[o] else acc
        res.append(acc.reshape(oshape[o]))
    return tuple(res) if tup else res[0]


def _kw_key(kw):
    return tuple(sorted((k, repr(v)) for k, v in kw.items()))


LIN_FUNCS = {
    "pyssht": {"forward": 1, "inverse": 1, "forward_adjoint": 1, "inverse_adjoint": 1},
    "pys2let": {"analysis_px2wav": 1, "synthesis_wav2px": 2, "analysis_adjoint_wav2px": 2,
                "synthesis_adjoint_px2wav": 1, "analysis_lm2lmn": 1, "synthesis_lmn2lm": 2,
                "analysis_adjoint_lmn2lm": 2, "synthesis_adjoint_lm2lmn": 1, "analysis_lm2wav": 1,
                "synthesis_wav2lm": 2, "analysis_adjoint_wav2lm": 2, "synthesis_adjoint_lm2wav": 1},
}
CALLS = []        # (library, function) actually used, for evidence


class LibShim(types.ModuleType):
    def __init__(self, real, name):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_name"] = name

    def __getattr__(self, name):
        if name.startswith("__"):
            return getattr(self._real, name)
        r = getattr(self._real, name)
        if not callable(r) or isinstance(r, type):
            return r
        nlin = LIN_FUNCS.get(self._name, {}).get(name)

        def g(*args, **kwargs):
            args = [a.__index__() if isinstance(a, S) and a.kind == "i" else a for a in args]
            kwargs = {k: (a.__index__() if isinstance(a, S) and a.kind == "i" else a) for k, a in kwargs.items()}
            if is_concrete(args) and is_concrete(kwargs):
                return from_native(r(*[_nat(a) for a in args], **{k: _nat(v) for k, v in kwargs.items()}))
            if nlin is None:
                raise Unsupported(f"{self._name}.{name} on symbolic values")
            CALLS.append((self._name, name))
            # positions of array operands
            xs, rest = list(args[:nlin]), list(args[nlin:])
            ks = []
            if len(xs) < nlin:
                # operands given by keyword
                ks = [k for k, v in kwargs.items() if isinstance(v, (SymArray, rnp.ndarray))]
                if len(xs) + len(ks) != nlin:
                    raise Unsupported(f"{self._name}.{name} with these operands")
                xs += [kwargs.pop(k) for k in ks]
            xs = [x if isinstance(x, SymArray) else from_native(x) for x in xs]
            if not is_concrete(rest) or not is_concrete(kwargs):
                raise Unsupported(f"{self._name}.{name} with symbolic parameters")
            rest = [_nat(a) for a in rest]
            kw = {k: _nat(v) for k, v in kwargs.items()}
            key = (self._name, name, repr(rest), _kw_key(kw), tuple(ks))
            np_ = nlin - len(ks)
            return linear_apply(r, key, xs, lambda *b: r(*b[:np_], *rest, **dict(zip(ks, b[np_:])), **kw))
        g.__name__ = name
        self.__dict__[name] = g
        return g


def _nat(a):
    if isinstance(a, SymArray):
        return native(a)
    if isinstance(a, S):
        return a.value()
    return a


class LazyModule(types.ModuleType):
    """Imports the real module on first use and hands native values to it."""

    def __init__(self, name):
        super().__init__(name)
        self.__dict__["_mn"] = name

    def __getattr__(self, name):
        if name.startswith("__") and name != "__version__":
            raise AttributeError(name)
        m = importlib.import_module(self._mn)
        v = getattr(m, name) if hasattr(m, name) else importlib.import_module(self._mn + "." + name)
        if isinstance(v, types.ModuleType):
            return LazyModule(v.__name__)
        if callable(v):
            return LazyCallable(v)
        return v


class LazyCallable:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "f")

    def __call__(self, *a, **k):
        if not is_concrete(a) or not is_concrete(k):
            raise Unsupported(f"{self.__name__} on symbolic values")
        return from_native(self.f(*[native(x) for x in a], **{kk: native(v) for kk, v in k.items()}))

    def __getattr__(self, n):
        return getattr(self.f, n)


# ---------------------------------------------------------------------------
# h5py
class FakeAttrs(dict):
    def create(self, name, data, shape=None, dtype=None):
        self[name] = data

    def modify(self, name, value):
        self[name] = value

    def __setitem__(self, k, v):
        if v is None or isinstance(v, dict):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        super().__setitem__(k, v)


class FakeGroup:
    def __init__(self):
        self.items_ = {}
        self.attrs = FakeAttrs()

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if name in self.items_:
            raise ValueError(f"Unable to create dataset (name already exists)")
        a = asarray(data).copy() if data is not None else zeros(shape, dtype or "f4")
        if dtype is not None:
            a = a.astype(rnp.dtype(dtype))
        if data is not None and shape is not None:
            a = a.reshape(shape)
        if k.get("scaleoffset") is not None and a.dtype.kind in "fc":
            a = NP.round(a, int(k["scaleoffset"]))      # a lossy filter
        self.items_[name] = a
        return a

    def require_dataset(self, name, shape, dtype, **k):
        return self.items_[name] if name in self.items_ else self.create_dataset(name, shape, dtype)

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def __getitem__(self, name):
        return self.items_[name]

    def __contains__(self, n):
        return n in self.items_

    def keys(self):
        return self.items_.keys()

    def create_group(self, name):
        self.items_[name] = FakeGroup()
        return self.items_[name]


class FakeFile(FakeGroup):
    files = {}

    def __init__(self, name, mode="r", **k):
        super().__init__()
        name = str(name)
        if mode in ("r", "a", "r+") and name in FakeFile.files:
            o = FakeFile.files[name]
            self.items_, self.attrs = o.items_, o.attrs
        elif mode in ("w-", "x") and name in FakeFile.files:
            raise FileExistsError(name)
        elif mode in ("r", "r+"):
            raise FileNotFoundError(name)
        FakeFile.files[name] = self
        self.filename = name
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def flush(self):
        pass


class _H5(types.ModuleType):
    File = FakeFile
    Group = FakeGroup
    Dataset = SymArray


# ---------------------------------------------------------------------------
NP = None
MODS = {}


def install():
    global NP
    if NP is not None:
        return
    rand = _RandomShim("numpy.random")
    linalg = NumpyShim(rnp.linalg, "numpy.linalg")
    fft = NumpyShim(rnp.fft, "numpy.fft")
    SUBMODS.update({"numpy.random": rand, "numpy.linalg": linalg, "numpy.fft": fft})
    NP = NumpyShim(rnp, "numpy", dict(NP_OVER))
    NP.__dict__["random"] = rand
    NP.__dict__["linalg"] = linalg
    NP.__dict__["fft"] = fft
    stats = _Stats("scipy.stats")
    sparse = _Sparse("scipy.sparse")
    sl = _SparseLinalg("scipy.sparse.linalg")
    _Sparse.linalg = sl
    scipy = types.ModuleType("scipy")
    scipy.sparse = sparse
    scipy.stats = stats
    scipy.linalg = linalg
    m = _Math("math")
    rnd = types.ModuleType("random")
    rnd.random = lambda: RNG._gen("uniform", None)
    rnd.gauss = lambda mu=0.0, sigma=1.0: mu + sigma * RNG._gen("normal", None)
    rnd.normalvariate = rnd.gauss
    rnd.uniform = lambda a, b: a + (b - a) * RNG._gen("uniform", None)
    rnd.seed = lambda *a: None
    import pyssht as rp
    import pys2let as r2
    MODS.update({
        "numpy": NP, "numpy.random": rand, "numpy.linalg": linalg, "numpy.fft": fft,
        "scipy": scipy, "scipy.sparse": sparse, "scipy.sparse.linalg": sl, "scipy.stats": stats, "scipy.linalg": linalg,
        "math": m, "random": rnd, "pyssht": LibShim(rp, "pyssht"), "pys2let": LibShim(r2, "pys2let"),
        "h5py": _H5("h5py"), "healpy": LazyModule("healpy"), "astropy": LazyModule("astropy"),
        "astropy.coordinates": LazyModule("astropy.coordinates"), "astropy.units": LazyModule("astropy.units"),
    })
