"""Arrays of symbolic scalars, with numpy's own indexing, shape and alias rules.

A `SymArray` is a real numpy array of dtype object whose elements are Python
numbers or symbolic scalars; `_ld` is the dtype the array would have in the
real program (so that storing a complex value in a float array drops the
imaginary part, integer arrays truncate, and so on).
"""
import functools
import itertools
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import (S, SBool, Unsupported, as_bool, b_all, b_and, b_any, b_not, b_or, ite, is_sym,
                   s_abs, s_cos, s_exp, s_floor, s_log, s_max, s_min, s_sign, s_sin, s_sqrt, to_s)

FLOAT = np.dtype(float)
CPLX = np.dtype(complex)
INT = np.dtype(int)
BOOL = np.dtype(bool)


def py(x):
    """numpy scalar -> Python scalar (elements are kept as Python numbers)."""
    if isinstance(x, np.generic):
        return x.item()
    return x


def elem_dtype(x):
    if isinstance(x, S):
        return x.dtype
    if isinstance(x, (SBool, bool, np.bool_)):
        return BOOL
    if isinstance(x, (int, np.integer)):
        return INT
    if isinstance(x, (float, np.floating, Fraction)):
        return FLOAT
    if isinstance(x, (complex, np.complexfloating)):
        return CPLX
    return np.dtype(object)


def infer_ld(a):
    ld = None
    for x in a.flat:
        d = elem_dtype(x)
        ld = d if ld is None else (d if ld == d else np.promote_types(ld, d) if d != object and ld != object else np.dtype(object))
    return ld if ld is not None else FLOAT


def cast_scalar(x, dt):
    """Value x stored in an array of dtype dt."""
    k = dt.kind
    if k == "O":
        return x
    if isinstance(x, np.ndarray):
        x = x[()] if x.ndim == 0 else x
        if isinstance(x, np.ndarray):
            if x.size == 1:
                x = x.reshape(-1)[0]
            else:
                raise ValueError("setting an array element with a sequence.")
    x = py(x)
    if isinstance(x, (S, SBool)):
        if k == "b":
            return as_bool(x)
        s = to_s(x)
        if s.isnan_:
            return s
        if k == "c":
            return s if s.im is not None else S(s.re, core.Poly({}))
        if s.im is not None:
            s = S(s.re)
        if k == "f":
            return S(s.re)
        if k in "iu":
            return s if s.kind == "i" else core.s_trunc(s)
        raise Unsupported(f"dtype {dt}")
    if isinstance(x, Fraction):
        return x
    if k == "f":
        if isinstance(x, complex):
            return x.real
        return float(x)
    if k == "c":
        return complex(x)
    if k in "iu":
        if isinstance(x, complex):
            x = x.real
        return int(x)
    if k == "b":
        return bool(x)
    return x


class SymBytes:
    """The bytes of an array: equal for equal entries of the same kind."""

    def __init__(self, ld, els):
        self.key, self.els = ld, els

    def __len__(self):
        return len(self.els) * (16 if self.key is complex else 8)

    def __hash__(self):
        return 0x5B

    def __eq__(self, o):
        return isinstance(o, SymBytes) and self.key == o.key and len(self.els) == len(o.els) and bool(b_all([x == y for x, y in zip(self.els, o.els)]))


class SymArray(np.ndarray):
    __array_priority__ = 3000

    def __new__(cls, obj, ld=None):
        a = np.asarray(obj, dtype=object).view(cls)
        a._ld = np.dtype(ld) if ld is not None else infer_ld(np.asarray(a))
        return a

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", None)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # dtype as the program sees it
    @property
    def dtype(self):
        if self._ld is None:
            self._ld = infer_ld(self.view(np.ndarray))
        return self._ld

    @property
    def ld(self):
        return self.dtype

    @property
    def raw(self):
        return self.view(np.ndarray)

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    # -- parts -------------------------------------------------------------
    @property
    def real(self):
        if self.ld.kind != "c":
            return self
        return emap(lambda x: x.real if not isinstance(x, SBool) else x, self, ld=FLOAT)

    @real.setter
    def real(self, v):
        v = np.broadcast_to(np.asarray(_raw(v), dtype=object), self.shape)
        r = self.raw
        for i in np.ndindex(self.shape):
            x = cast_scalar(v[i], FLOAT)
            r[i] = x if self.ld.kind != "c" else to_s(x) + to_s(r[i]).imag * 1j

    @property
    def imag(self):
        if self.ld.kind != "c":
            return zeros(self.shape, self.ld)
        return emap(lambda x: x.imag, self, ld=FLOAT)

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(np.asarray(_raw(v), dtype=object), self.shape)
        r = self.raw
        for i in np.ndindex(self.shape):
            r[i] = to_s(r[i]).real + to_s(cast_scalar(v[i], FLOAT)) * 1j

    def conj(self):
        return emap(lambda x: x.conjugate() if hasattr(x, "conjugate") else x, self, ld=self.ld)

    conjugate = conj

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        if dt is None:
            dt = float
        dt = _dt(dt)
        return emap(lambda x: cast_scalar(x, dt), self, ld=dt)

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, a[0])
        if not a and not k:
            return np.ndarray.view(self)
        raise Unsupported("reinterpreting view of a symbolic array")

    def tolist(self):
        return self.raw.tolist()

    def item(self, *a):
        return self.raw.item(*a)

    def fill(self, v):
        v = cast_scalar(v, self.ld)
        self.raw.fill(v)

    # -- reductions and products routed through the symbolic versions ----------
    def dot(self, o, out=None):
        return dot(self, o)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_("add", self, axis, keepdims, dtype=dtype, out=out, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_("multiply", self, axis, keepdims, dtype=dtype, out=out, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return var(self, axis, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return do_ufunc(np.sqrt, "__call__", (var(self, axis, ddof, keepdims),), {})

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("maximum", self, axis, keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("minimum", self, axis, keepdims, **k)

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis, keepdims=keepdims) - self.min(axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("logical_or", self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("logical_and", self, axis, keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumulate("add", self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return cumulate("multiply", self, axis)

    def argmax(self, axis=None, out=None, **k):
        return argext(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None, **k):
        return argext(self, axis, lambda a, b: a < b)

    def sort(self, axis=-1, kind=None, order=None):
        self.raw[...] = _raw(sort(self, axis))

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def nonzero(self):
        m = concrete_mask(do_ufunc(np.not_equal, "__call__", (self, 0), {}))
        return tuple(SymArray(x.astype(object), INT) for x in np.nonzero(m))

    def round(self, decimals=0, out=None):
        if fully_concrete(self):
            return from_native(native(self).round(decimals))
        if self.dtype.kind in "iub" and decimals >= 0:
            return self.copy()
        f = 10 ** decimals if decimals >= 0 else 1 / 10 ** -decimals
        return do_ufunc(np.rint, "__call__", (self * f,), {}) / f

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max)

    def trace(self, *a, **k):
        return reduce_("add", np.diagonal(self), None, False)

    # -- indexing ----------------------------------------------------------
    def __getitem__(self, idx):
        idx = fix_index(idx, self.shape)
        r = np.ndarray.__getitem__(self, idx)
        if isinstance(r, SymArray):
            if r.ndim == 0 and not _has_ellipsis(idx):
                return r.raw[()]
            r._ld = self._ld
        return r

    def __setitem__(self, idx, value):
        if isinstance(idx, np.ndarray) and _symbolic_mask(idx):
            if idx.shape == self.shape[:idx.ndim] and (np.ndim(value) == 0):
                r = self.raw
                v = cast_scalar(_raw0(value), self.ld)
                m = idx.view(np.ndarray)
                for i in np.ndindex(idx.shape):
                    if idx.ndim == self.ndim:
                        r[i] = ite(as_bool(m[i]), v, r[i])
                    else:
                        sub = r[i]
                        for j in np.ndindex(sub.shape):
                            sub[j] = ite(as_bool(m[i]), v, sub[j])
                return
        idx = fix_index(idx, self.shape)
        ld = self.ld
        value = _raw(value) if isinstance(value, np.ndarray) else value
        if isinstance(value, (list, tuple)):
            value = _raw(asarray(value))
        if isinstance(value, np.ndarray) and value.ndim > 0:
            v = np.empty(value.shape, dtype=object)
            for i in np.ndindex(value.shape):
                v[i] = cast_scalar(value[i], ld)
            target = self.raw[idx]
            if not isinstance(target, np.ndarray):
                if v.size == 1 and ld.kind != "O":
                    self.raw[idx] = v.reshape(-1)[0]
                    return
                raise ValueError("setting an array element with a sequence.")
            self.raw[idx] = v
        else:
            v = cast_scalar(_raw0(value), ld)
            if is_sym(v) and isinstance(self.raw[idx], np.ndarray):
                b = np.empty((), dtype=object)
                b[()] = v
                v = b
            self.raw[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(b_any((self == x).raw.flat))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(as_bool(self.raw.reshape(-1)[0]))

    def __float__(self):
        return float(self.raw.reshape(-1)[0]) if self.size == 1 else float(np.ndarray.__float__(self))

    def __int__(self):
        return int(self.raw.reshape(-1)[0])

    def __complex__(self):
        return complex(self.raw.reshape(-1)[0])

    def __format__(self, spec):
        if self.ndim and spec:
            raise TypeError("unsupported format string passed to numpy.ndarray.__format__")
        return "<symarray>"

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __repr__(self):
        return f"SymArray({self.raw!r}, ld={self._ld})"

    __str__ = __repr__
    __hash__ = None

    def tobytes(self, order="C"):
        return SymBytes(self.ld, [to_s(e) for e in self.raw.reshape(-1, order="C" if order is None else order)])

    tostring = tobytes

    # -- protocols -----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, args, kwargs)


for _f in ("reshape", "ravel", "flatten", "transpose", "copy", "repeat", "take", "squeeze", "swapaxes", "diagonal"):
    def _mk(_f=_f):
        base = getattr(np.ndarray, _f)

        def g(self, *a, **k):
            r = base(self, *[fix_ints(x) for x in a], **k)
            if isinstance(r, SymArray):
                r._ld = self._ld
            return r
        g.__name__ = _f
        return g
    setattr(SymArray, _f, _mk())


def fix_ints(x):
    if isinstance(x, S):
        return x.__index__()
    if isinstance(x, tuple):
        return tuple(fix_ints(y) for y in x)
    if isinstance(x, list):
        return [fix_ints(y) for y in x]
    if isinstance(x, SymArray):
        return native(x) if fully_concrete(x) else np.array([fix_ints(y) for y in x.raw.reshape(-1)]).reshape(x.shape)
    return x


def _dt(dt):
    if dt in (float, complex, int, bool, object):
        return np.dtype(dt)
    if isinstance(dt, np.dtype):
        return dt
    if dt is list:
        return np.dtype(object)
    return np.dtype(dt)


def _raw(x):
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def _raw0(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.view(np.ndarray)[()]
    return x


def _has_ellipsis(idx):
    return idx is Ellipsis or (isinstance(idx, tuple) and any(i is Ellipsis for i in idx))


def _symbolic_mask(idx):
    if isinstance(idx, SymArray):
        return any(isinstance(x, SBool) for x in idx.raw.flat)
    return isinstance(idx, np.ndarray) and idx.dtype == object and any(isinstance(x, SBool) for x in idx.flat)


def fix_index(idx, shape=None):
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, S):
        return idx.__index__()
    if isinstance(idx, SBool):
        return bool(idx)
    if isinstance(idx, slice):
        return slice(*[x.__index__() if isinstance(x, S) else x for x in (idx.start, idx.stop, idx.step)])
    if isinstance(idx, SymArray) or (isinstance(idx, np.ndarray) and idx.dtype == object):
        if any(isinstance(x, (SBool, bool)) for x in _raw(idx).flat) or (idx.size == 0 and idx.dtype.kind == "b"):
            return concrete_mask(idx)
        if idx.size and not all(isinstance(x, (int, S)) for x in _raw(idx).flat):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array([int(x.__index__()) for x in _raw(idx).reshape(-1)], dtype=int).reshape(idx.shape)
    if isinstance(idx, list):
        if any(is_sym(x) for x in idx):
            return [fix_index(x) for x in idx]
    return idx


def concrete_mask(m):
    m = _raw(m)
    out = np.empty(m.shape, dtype=bool)
    for i in np.ndindex(m.shape):
        out[i] = bool(m[i])
    return out


# ---------------------------------------------------------------------------
def has_sym(x):
    if isinstance(x, (S, SBool)):
        return True
    if isinstance(x, SymArray) or (isinstance(x, np.ndarray) and x.dtype == object):
        return any(isinstance(e, (S, SBool, Fraction)) for e in _raw(x).flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def fully_concrete(x):
    return not any(isinstance(e, (S, SBool)) and not (isinstance(e, S) and e.is_const() and not e.isnan_)
                   for e in _raw(x).flat)


def native(x):
    """Plain numpy value of a fully concrete array/scalar."""
    if isinstance(x, SymArray):
        vals = [e.value() if isinstance(e, S) else (float(e) if isinstance(e, Fraction) else e) for e in x.raw.reshape(-1)]
        ld = x.ld
        if ld.kind == "O":
            a = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
            return a.reshape(x.shape)
        return np.array(vals, dtype=ld).reshape(x.shape)
    if isinstance(x, S):
        return x.value()
    if isinstance(x, list):
        return [native(e) for e in x]
    if isinstance(x, tuple):
        return tuple(native(e) for e in x)
    return x


def is_concrete(x):
    if isinstance(x, SymArray):
        return fully_concrete(x)
    if isinstance(x, S):
        return x.is_const()
    if isinstance(x, SBool):
        return False
    if isinstance(x, (list, tuple)):
        return all(is_concrete(e) for e in x)
    if isinstance(x, dict):
        return all(is_concrete(e) for e in x.values())
    return True


def from_native(x):
    """Wrap numpy results so later stores can hold symbolic values."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "biufc":
            return SymArray(x.astype(object), x.dtype)
        if x.dtype == object:
            return SymArray(x, object if any(isinstance(e, np.ndarray) for e in x.flat) else None)
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(from_native(e) for e in x)
    if isinstance(x, list):
        return [from_native(e) for e in x]
    return x


def wrap_list(lst, shape, ld=None):
    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = v
    return SymArray(a.reshape(shape), ld)


def emap(f, a, ld=None):
    r = _raw(a)
    out = np.empty(r.shape, dtype=object)
    for i in np.ndindex(r.shape):
        out[i] = f(r[i])
    return SymArray(out, ld)


def zeros(shape, ld=FLOAT, val=0):
    ld = _dt(ld)
    a = np.empty(fix_ints(shape), dtype=object)
    v = cast_scalar(val, ld) if not (ld.kind == "O") else val
    for i in np.ndindex(a.shape):
        a[i] = v
    return SymArray(a, ld)


def asarray(x, dtype=None, copy=False, ndmin=0):
    """np.array / np.asarray, always giving a SymArray."""
    if isinstance(x, SymArray):
        if dtype is not None and _dt(dtype) != x.ld:
            return x.astype(dtype)
        return x.copy() if copy else x
    if hasattr(x, "toarray") and hasattr(x, "symsparse"):
        return x
    if isinstance(x, np.ndarray) and x.dtype != object:
        if dtype is not None:
            x = x.astype(_dt(dtype)) if _dt(dtype).kind != "O" else x.astype(object)
        if x.dtype.kind not in "biufcO":
            return x
        r = SymArray(x.astype(object), x.dtype)
    elif isinstance(x, (S, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        r = SymArray(a, elem_dtype(x))
        if dtype is not None:
            r = r.astype(dtype)
    elif isinstance(x, (list, tuple)) and (has_sym(x) or any(isinstance(e, SymArray) for e in _flat(x))):
        parts = [asarray(e) for e in x]
        if dtype is not None and _dt(dtype).kind == "O" and len({p.shape for p in parts}) > 1:
            a = np.empty(len(parts), dtype=object)
            for i, p in enumerate(parts):
                a[i] = p
            return SymArray(a, object)
        shp = {p.shape for p in parts}
        if len(shp) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        sh = shp.pop() if shp else ()
        a = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            if sh:
                a[i] = p.raw
            else:
                a[i] = p.raw[()]
        r = SymArray(a, np.result_type(*[p.ld for p in parts]) if parts else FLOAT)
        if dtype is not None:
            r = r.astype(dtype)
    else:
        if isinstance(x, range) or not isinstance(x, (list, tuple, np.ndarray)):
            pass
        n = np.array(x, dtype=None if dtype is None or _dt(dtype).kind == "O" and not _ragged(x) else _dt(dtype))
        if n.dtype.kind not in "biufcO":
            return n
        if dtype is not None and _dt(dtype).kind == "O":
            r = SymArray(n.astype(object), object)
        elif n.dtype == object and not any(isinstance(e, np.ndarray) for e in n.flat):
            r = SymArray(n)
        else:
            r = SymArray(n.astype(object), n.dtype)
    while r.ndim < ndmin:
        ld = r._ld
        r = r[None]
        r._ld = ld
    return r


def _flat(x):
    for e in x:
        if isinstance(e, (list, tuple)):
            yield from _flat(e)
        else:
            yield e


def _ragged(x):
    return isinstance(x, (list, tuple)) and len({np.shape(e) for e in x if isinstance(e, (np.ndarray, list, tuple))}) > 1


# ---------------------------------------------------------------------------
# element functions
def _floor_divide(a, b): return to_s(a) // to_s(b)
def _remainder(a, b): return to_s(a) % to_s(b)


def _hypot(a, b):
    a, b = to_s(a), to_s(b)
    p = a * a + b * b
    core.mark_nonneg(p.re)
    return s_sqrt(p)


def _square(a):
    r = to_s(a) * to_s(a)
    return r


def _absolute(a):
    return s_abs(to_s(a))


def _log_base(base):
    def f(a):
        return s_log(to_s(a)) * (1.0 / math.log(base))
    return f


def _log10(a):
    a = to_s(a)
    if a.is_const():
        return to_s(math.log10(a.value()))
    return s_log(a) * Fraction(1) * (1.0 / math.log(10.0))


def _power(a, b):
    a, b = to_s(a), to_s(b)
    return core.s_pow(a, b)


def _arctan2(a, b):
    return core._uf("arctan2", (to_s(a), to_s(b)), math.atan2)


def _isnan(a):
    if isinstance(a, S):
        return a.isnan_
    return False


def _rint(a):
    """To the nearest integer; exact halves go up (numpy: to the even one)."""
    a = to_s(a)
    if a.im is not None:
        return S(_rint(S(a.re)).re, _rint(S(a.im)).re)
    if a.re.is_const():
        return S(to_s(float(round(a.value()))).re)
    return S(s_floor(a + 0.5).re)


def _sqrt(a):
    return s_sqrt(to_s(a))


EL = {
    "add": lambda a, b: to_s(a) + to_s(b) if not (core._isb(a) and core._isb(b)) else b_or(a, b),
    "subtract": lambda a, b: to_s(a) - to_s(b),
    "multiply": lambda a, b: to_s(a) * to_s(b) if not (core._isb(a) and core._isb(b)) else b_and(a, b),
    "divide": lambda a, b: to_s(a) / to_s(b),
    "true_divide": lambda a, b: to_s(a) / to_s(b),
    "floor_divide": _floor_divide,
    "remainder": _remainder,
    "mod": _remainder,
    "power": _power,
    "float_power": _power,
    "square": _square,
    "sqrt": _sqrt,
    "absolute": _absolute,
    "fabs": _absolute,
    "negative": lambda a: -to_s(a),
    "positive": lambda a: a,
    "sign": lambda a: s_sign(a),
    "conjugate": lambda a: to_s(a).conjugate(),
    "exp": lambda a: s_exp(to_s(a)),
    "log": lambda a: s_log(to_s(a)),
    "log10": _log10,
    "log2": _log_base(2.0),
    "log1p": lambda a: s_log(to_s(a) + 1),
    "expm1": lambda a: s_exp(to_s(a)) - 1,
    "sin": lambda a: s_sin(to_s(a)),
    "cos": lambda a: s_cos(to_s(a)),
    "tan": lambda a: s_sin(to_s(a)) / s_cos(to_s(a)),
    "hypot": _hypot,
    "arctan2": _arctan2,
    "maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min,
    "greater": lambda a, b: to_s(a) > to_s(b),
    "greater_equal": lambda a, b: to_s(a) >= to_s(b),
    "less": lambda a, b: to_s(a) < to_s(b),
    "less_equal": lambda a, b: to_s(a) <= to_s(b),
    "equal": lambda a, b: (a == b) if (core._isb(a) and core._isb(b)) else to_s(a) == to_s(b),
    "not_equal": lambda a, b: b_not((a == b) if (core._isb(a) and core._isb(b)) else to_s(a) == to_s(b)),
    "logical_and": lambda a, b: b_and(as_bool(a), as_bool(b)),
    "logical_or": lambda a, b: b_or(as_bool(a), as_bool(b)),
    "logical_xor": lambda a, b: b_or(b_and(as_bool(a), b_not(as_bool(b))), b_and(b_not(as_bool(a)), as_bool(b))),
    "logical_not": lambda a: b_not(as_bool(a)),
    "bitwise_and": lambda a, b: b_and(a, b) if core._isb(a) and core._isb(b) else _bad("&"),
    "bitwise_or": lambda a, b: b_or(a, b) if core._isb(a) and core._isb(b) else _bad("|"),
    "bitwise_xor": lambda a, b: EL["logical_xor"](a, b),
    "invert": lambda a: b_not(a) if core._isb(a) else _bad("~"),
    "isnan": _isnan,
    "isinf": lambda a: False,
    "isfinite": lambda a: not _isnan(a),
    "reciprocal": lambda a: 1 / to_s(a),
    "floor": lambda a: S(s_floor(to_s(a)).re),
    "ceil": lambda a: S((-s_floor(-to_s(a))).re),
    "trunc": lambda a: S(core.s_trunc(to_s(a)).re),
    "rint": _rint,
    "deg2rad": lambda a: to_s(a) * (math.pi / 180), "radians": lambda a: to_s(a) * (math.pi / 180),
    "rad2deg": lambda a: to_s(a) * (180 / math.pi), "degrees": lambda a: to_s(a) * (180 / math.pi),
    "clip": lambda a, lo, hi: s_min(s_max(a, lo), hi),
    "copysign": lambda a, b: ite(to_s(b) >= 0, s_abs(to_s(a)), -s_abs(to_s(a))),
    "signbit": lambda a: to_s(a) < 0,
    "heaviside": lambda a, h: ite(to_s(a) < 0, 0.0, ite(to_s(a) > 0, 1.0, h)),
    "arccos": lambda a: core._uf("arccos", (to_s(a),), math.acos),
    "arcsin": lambda a: core._uf("arcsin", (to_s(a),), math.asin),
    "arctan": lambda a: core._uf("arctan", (to_s(a),), math.atan),
    "exp2": lambda a: s_exp(to_s(a) * math.log(2.0)),
}


def _bad(op):
    raise Unsupported(f"bitwise {op} on symbolic numbers")


EXACT_SQRT = True


def apply_el(name, ufunc, args):
    """One element; concrete arguments use the real ufunc."""
    if not any(isinstance(a, (S, SBool, Fraction)) for a in args):
        if name == "sqrt" and isinstance(args[0], (int, float)) and not isinstance(args[0], bool):
            x = args[0]
            if x == x and x >= 0 and x != math.inf and float(x).is_integer() and x < 10 ** 8 and core.CTX is not None:
                r = math.isqrt(int(x))
                if r * r != int(x):
                    return s_sqrt(to_s(int(x)))     # keep sqrt(2) etc. exact
        with np.errstate(all="ignore"):
            return py(ufunc(*args))
    f = EL.get(name)
    if f is None:
        raise Unsupported(f"ufunc {name} on symbolic values")
    r = f(*args)
    return r


@functools.lru_cache(maxsize=None)
def _res_dtype(ufunc, dts):
    with np.errstate(all="ignore"):
        r = ufunc(*[np.ones(1, d) for d in dts])
    if isinstance(r, tuple):
        return tuple(x.dtype for x in r)
    return r.dtype


def result_ld(ufunc, inputs):
    dts = []
    for x in inputs:
        if isinstance(x, SymArray):
            d = x.ld
        elif isinstance(x, np.ndarray):
            d = x.dtype if x.dtype != object else infer_ld(x)
        else:
            d = elem_dtype(x)
        if d.kind == "O":
            return np.dtype(object)
        dts.append(d)
    try:
        return _res_dtype(ufunc, tuple(dts))
    except TypeError:
        raise


def do_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    for x in inputs:
        if hasattr(x, "symsparse"):
            return NotImplemented
    out = kwargs.pop("out", None)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
    if method == "reduce":
        return reduce_(name, inputs[0], kwargs.get("axis", 0), kwargs.get("keepdims", False),
                       dtype=kwargs.get("dtype"), out=out, initial=kwargs.get("initial", np._NoValue),
                       where=kwargs.get("where", True))
    if method == "accumulate":
        return cumulate(name, inputs[0], kwargs.get("axis", inputs[1] if len(inputs) > 1 else 0))
    if method == "outer":
        a, b = asarray(inputs[0]), asarray(inputs[1])
        return do_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == "at":
        a, idx, b = inputs
        idx = fix_index(idx)
        for k, i in enumerate(np.atleast_1d(idx)):
            v = b if np.ndim(b) == 0 else b[k]
            a[i] = apply_el(name, ufunc, (a[i], py(v)))
        return None
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    if name == "matmul":
        r = matmul(*inputs)
        if out is not None:
            out[...] = r
            return out
        return r
    if name == "divmod":
        return (do_ufunc(np.floor_divide, "__call__", inputs, {}), do_ufunc(np.remainder, "__call__", inputs, {}))
    if name == "modf" or ufunc.nout != 1:
        raise Unsupported(f"ufunc {name}")
    where = kwargs.pop("where", True)
    dtype = kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    ins = [(asarray(x) if isinstance(x, (list, tuple)) else x) for x in inputs]
    ld = result_ld(ufunc, ins) if dtype is None else _dt(dtype)
    raws = [_raw(x) if isinstance(x, np.ndarray) else x for x in ins]
    arrs = [x if isinstance(x, np.ndarray) else None for x in raws]
    shapes = [x.shape for x in raws if isinstance(x, np.ndarray)]
    if where is not True:
        where = _raw(where) if isinstance(where, np.ndarray) else where
        if isinstance(where, np.ndarray):
            shapes.append(where.shape)
    if out is not None:
        shapes_b = np.broadcast_shapes(*shapes) if shapes else ()
        if np.broadcast_shapes(shapes_b, out.shape) != out.shape:
            raise ValueError(f"non-broadcastable output operand with shape {out.shape}")
        shape = out.shape
        old = ld
        if isinstance(out, SymArray) and not np.can_cast(old, out.ld, "same_kind") and out.ld.kind != "O":
            raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", old, out.ld, 0)
    else:
        shape = np.broadcast_shapes(*shapes) if shapes else None
    if shape is None:
        r = apply_el(name, ufunc, [py(x) for x in raws])
        return cast_scalar(r, ld) if is_sym(r) and ld.kind in "fc" else r
    bro = []
    for x in raws:
        if isinstance(x, np.ndarray):
            if x.dtype != object:
                x = x.astype(object)
            bro.append(np.broadcast_to(x, shape))
        else:
            bro.append(py(x))
    wb = np.broadcast_to(where, shape) if isinstance(where, np.ndarray) else where
    res = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        w = wb[i] if isinstance(wb, np.ndarray) else wb
        if w is not True and not isinstance(w, SBool) and not w:
            res[i] = _raw(out)[i] if out is not None else 0.0
            continue
        args = [x[i] if isinstance(x, np.ndarray) else x for x in bro]
        v = apply_el(name, ufunc, args)
        if isinstance(w, SBool):
            v = ite(w, v, _raw(out)[i] if out is not None else 0.0)
        res[i] = cast_scalar(v, ld) if is_sym(v) else v
    if out is not None:
        if isinstance(out, SymArray):
            r = out.raw
            for i in np.ndindex(shape):
                r[i] = cast_scalar(res[i], out.ld)
            return out
        out[...] = res.astype(out.dtype) if not any(is_sym(e) for e in res.flat) else _fail_out()
        return out
    if shape == ():
        return res[()]
    return SymArray(res, ld)


def _fail_out():
    raise Unsupported("symbolic result written into a native array")


def _two(name, ufunc, a, b):
    return apply_el(name, ufunc, (a, b))


def reduce_(name, a, axis=0, keepdims=False, dtype=None, out=None, initial=np._NoValue, where=True, **_):
    ufunc = getattr(np, name)
    a = asarray(a)
    ld = a.ld
    if name == "add" and ld.kind == "b":
        a = a.astype(int)
        ld = INT
    if dtype is not None:
        a = a.astype(dtype)
        ld = a.ld
    if name in ("logical_and", "logical_or"):
        ld = BOOL
        a = emap(as_bool, a, ld=BOOL)
    r = a.raw
    if where is not True:
        ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
        if ident is None:
            ident = None if initial is np._NoValue else initial
        w = np.broadcast_to(_raw(asarray(where)), r.shape)
        r2 = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r2[i] = ite(as_bool(w[i]), r[i], ident) if isinstance(w[i], SBool) else (r[i] if w[i] else ident)
        r = r2
    if axis is None:
        axes = tuple(range(r.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(fix_ints(x) for x in axes)
        for x in axes:
            if not -r.ndim <= x < max(r.ndim, 1):
                raise np.exceptions.AxisError(x, r.ndim)
        axes = tuple(x % r.ndim for x in axes) if r.ndim else ()
    keep = [i for i in range(r.ndim) if i not in axes]
    t = np.transpose(r, keep + list(axes)) if r.ndim else r
    kshape = t.shape[:len(keep)]
    t = t.reshape(kshape + (-1,)) if r.size else t.reshape(kshape + (0,))
    res = np.empty(kshape, dtype=object)
    conc = not any(is_sym(e) for e in r.flat)
    for i in np.ndindex(kshape):
        row = list(t[i])
        if conc and name in ("add",) and row and initial is np._NoValue and not any(isinstance(e, Fraction) for e in row):
            res[i] = py(ufunc.reduce(np.array(row)))
            continue
        if initial is not np._NoValue and initial is not None:
            row = [py(initial)] + row
        if not row:
            ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
            if ident is None:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            res[i] = cast_scalar(ident, ld)
            continue
        v = row[0]
        for e in row[1:]:
            v = _two(name, ufunc, v, e)
        res[i] = v
    if keepdims:
        shp = tuple(1 if i in axes else r.shape[i] for i in range(r.ndim))
        res = res.reshape(shp)
    if out is not None:
        out[...] = SymArray(res, ld)
        return out
    if res.ndim == 0:
        return res[()]
    return SymArray(res, ld)


def cumulate(name, a, axis=None):
    ufunc = getattr(np, name)
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    out = np.empty(a.shape, dtype=object)
    m = np.moveaxis(a.raw, axis, 0)
    o = np.moveaxis(out, axis, 0)
    for j in np.ndindex(m.shape[1:]):
        acc = None
        for i in range(m.shape[0]):
            e = m[(i,) + j]
            acc = e if acc is None else _two(name, ufunc, acc, e)
            o[(i,) + j] = acc
    return SymArray(out, a.ld if a.ld.kind != "b" else INT)


def mean(a, axis=None, keepdims=False):
    a = asarray(a)
    if fully_concrete(a) and not has_sym(a):
        return from_native(np.mean(native(a), axis=axis, keepdims=keepdims))
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    if a.ld.kind in "bi":
        a = a.astype(float)
    s = reduce_("add", a, axis, keepdims)
    return s / n


def var(a, axis=None, ddof=0, keepdims=False):
    a = asarray(a)
    m = mean(a, axis, True)
    d = a - m
    if d.ld.kind == "c":
        d = do_ufunc(np.absolute, "__call__", (d,), {})
    s = reduce_("add", d * d, axis, keepdims)
    n = a.size if axis is None else a.shape[axis]
    return s / (n - ddof)


def argext(a, axis, better):
    a = asarray(a)
    if fully_concrete(a):
        f = np.argmax if better(2, 1) else np.argmin
        return from_native(f(native(a), axis=axis)) if axis is not None else int(f(native(a)))
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a.raw, axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = argext(SymArray(m[i], a.ld), None, better)
        return SymArray(out, INT)
    r = a.raw.reshape(-1)
    if not len(r):
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, len(r)):
        if better(to_s(r[i]), to_s(r[best])):
            best = i
    return best


def sort_list(v):
    """Sorting network of compare-exchange merges: no forks."""
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = s_min(a, b), s_max(a, b)
    return v


def sort(a, axis=-1):
    a = asarray(a)
    if fully_concrete(a) and not has_sym(a):
        return from_native(np.sort(native(a), axis=axis))
    if axis is None:
        a = a.ravel()
        axis = 0
    out = np.empty(a.shape, dtype=object)
    m = np.moveaxis(a.raw, axis, -1)
    o = np.moveaxis(out, axis, -1)
    for i in np.ndindex(m.shape[:-1]):
        for k, x in enumerate(sort_list(m[i])):
            o[i + (k,)] = x
    return SymArray(out, a.ld)


def argsort(a, axis=-1, **k):
    a = asarray(a)
    if fully_concrete(a):
        return from_native(np.argsort(native(a), axis=axis, kind="stable"))
    if a.ndim != 1:
        raise Unsupported("argsort of a symbolic matrix")
    idx = list(range(a.size))
    key = functools.cmp_to_key(lambda i, j: -1 if bool(to_s(a.raw[i]) < to_s(a.raw[j])) else
                               (1 if bool(to_s(a.raw[i]) > to_s(a.raw[j])) else i - j))
    return SymArray(np.array(sorted(idx, key=key), dtype=object), INT)


def quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, *, interpolation=None, **_):
    a = asarray(a)
    if interpolation is not None:
        method = interpolation
    if is_concrete(a) and is_concrete(q):
        return from_native(np.quantile(native(a), native(q), axis=axis, method=method, keepdims=keepdims))
    if a.ld.kind == "c":
        raise TypeError("a must be an array of real numbers")
    if axis is None:
        m = a.raw.reshape(-1)[:, None]
        rest = ()
    else:
        m = np.moveaxis(a.raw, axis, 0)
        rest = m.shape[1:]
        m = m.reshape(m.shape[0], -1)
    n = m.shape[0]
    if n == 0:
        raise IndexError("index -1 is out of bounds for axis 0 with size 0")
    srt = np.empty(m.shape, dtype=object)
    for j in range(m.shape[1]):
        for i, x in enumerate(sort_list(m[:, j])):
            srt[i, j] = x
    qs = asarray(q)
    qf = qs.raw.reshape(-1)
    res = np.empty((len(qf), m.shape[1]), dtype=object)
    for k, qq in enumerate(qf):
        qq = to_s(qq)
        if bool(qq < 0) or bool(qq > 1):
            raise ValueError("Quantiles must be in the range [0, 1]")
        h = qq * (n - 1)
        if method == "linear":
            lo = int(s_floor(h).__index__())
            g = h - lo
            hi = min(lo + 1, n - 1)
            for j in range(m.shape[1]):
                res[k, j] = to_s(srt[lo, j]) + (to_s(srt[hi, j]) - to_s(srt[lo, j])) * g
        elif method in ("lower", "higher", "nearest", "midpoint"):
            lo = int(s_floor(h).__index__())
            up = lo if bool(h == lo) else lo + 1
            for j in range(m.shape[1]):
                if method == "lower":
                    res[k, j] = srt[lo, j]
                elif method == "higher":
                    res[k, j] = srt[up, j]
                elif method == "midpoint":
                    res[k, j] = (to_s(srt[lo, j]) + to_s(srt[up, j])) / 2
                else:
                    f = h - lo
                    res[k, j] = srt[lo, j] if bool(f < 0.5) or (bool(f == 0.5) and lo % 2 == 0) else srt[up, j]
        elif method == "inverted_cdf":
            h2 = qq * n
            lo = int((-s_floor(-h2)).__index__()) - 1
            for j in range(m.shape[1]):
                res[k, j] = srt[max(lo, 0), j]
        else:
            raise Unsupported(f"quantile method {method}")
    shape = qs.shape + rest
    if keepdims:
        if axis is None:
            shape = qs.shape + (1,) * a.ndim
        else:
            r = list(a.shape)
            r[axis] = 1
            shape = qs.shape + tuple(r)
    res = res.reshape(shape)
    if res.ndim == 0:
        return res[()]
    return SymArray(res, FLOAT)


def clip(a, lo=None, hi=None, out=None, **_):
    lo = _.get("min", lo) if lo is None else lo
    hi = _.get("max", hi) if hi is None else hi
    r = a
    if lo is not None:
        r = do_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = do_ufunc(np.minimum, "__call__", (r, hi), {})
    if out is not None:
        out[...] = r
        return out
    return r


# ---------------------------------------------------------------------------
def _prod_sum(xs, ys):
    acc = None
    for x, y in zip(xs, ys):
        if not is_sym(x) and not is_sym(y):
            v = x * y
            if not isinstance(v, (S, SBool)) and v == 0 and acc is not None:
                continue
        else:
            if not is_sym(x) and x == 0 or not is_sym(y) and y == 0:
                # 0 * finite = 0
                v = 0
                if (isinstance(x, S) and x.isnan_) or (isinstance(y, S) and y.isnan_):
                    v = S.nan()
                elif acc is not None:
                    continue
                elif isinstance(x, complex) or isinstance(y, complex) or (isinstance(x, S) and x.im is not None) or (
                        isinstance(y, S) and y.im is not None):
                    v = 0j
                else:
                    v = 0.0
            else:
                v = to_s(x) * to_s(y)
        acc = v if acc is None else (to_s(acc) + to_s(v) if is_sym(acc) or is_sym(v) else acc + v)
    return acc if acc is not None else 0.0


def _ldmul(a, b):
    return np.result_type(a.ld, b.ld) if a.ld.kind != "O" and b.ld.kind != "O" else np.dtype(object)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    return dot(a, b) if a.ndim <= 2 and b.ndim <= 2 else _bigmatmul(a, b)


def _bigmatmul(a, b):
    raise Unsupported("batched matmul of symbolic arrays")


def dot(a, b):
    if hasattr(b, "symsparse"):
        return b.__rmatmul__(a)
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b if a.ndim or b.ndim else a.raw[()] * b.raw[()]
    ld = _ldmul(a, b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("dot of symbolic arrays with more than two dimensions")
    if a.shape[-1] != b.shape[0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned: {a.shape[-1]} (dim {a.ndim - 1}) != {b.shape[0]} (dim 0)")
    A = a.raw if a.ndim == 2 else a.raw[None, :]
    B = b.raw if b.ndim == 2 else b.raw[:, None]
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = cast_scalar(_prod_sum(A[i], B[:, j]), ld)
    if a.ndim == 1 and b.ndim == 1:
        return out[0, 0]
    if a.ndim == 1:
        out = out[0]
    elif b.ndim == 1:
        out = out[:, 0]
    return SymArray(out, ld)


def vdot(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return dot(a.conj(), b)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    ab = do_ufunc(np.absolute, "__call__", (x,), {})
    if axis is None and ord is None:
        x = x.ravel()
        ab = ab.ravel()
        axis_ = None
    else:
        axis_ = axis
    if ord is None or ord == 2 or ord == "fro":
        if ord == 2 and x.ndim == 2 and axis is None:
            raise Unsupported("spectral norm")
        s = reduce_("add", ab * ab, axis_, keepdims)
        for e in (_raw(s).flat if isinstance(s, np.ndarray) else [s]):
            if isinstance(e, S):
                core.mark_nonneg(e.re)
        return do_ufunc(np.sqrt, "__call__", (s,), {})
    if ord == 1:
        return reduce_("add", ab, axis_, keepdims)
    if ord == np.inf:
        return reduce_("maximum", ab, axis_, keepdims)
    if ord == -np.inf:
        return reduce_("minimum", ab, axis_, keepdims)
    raise Unsupported(f"norm of order {ord}")


def det(m):
    m = asarray(m)
    n = m.shape[0]
    r = m.raw
    if n == 0:
        return 1.0
    if n == 1:
        return to_s(r[0, 0])
    tot = None
    for j in range(n):
        if not is_sym(r[0, j]) and r[0, j] == 0:
            continue
        minor = np.delete(np.delete(r, 0, 0), j, 1)
        v = to_s(r[0, j]) * to_s(det(SymArray(minor, m.ld))) * (1 if j % 2 == 0 else -1)
        tot = v if tot is None else tot + v
    return tot if tot is not None else to_s(0.0)


def inv(m):
    m = asarray(m)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if fully_concrete(m) and not has_sym(m):
        return from_native(np.linalg.inv(native(m)))
    n = m.shape[0]
    if n > 4:
        raise Unsupported("symbolic matrix inverse above 4x4")
    d = to_s(det(m))
    if not core.p_nonzero(d.re) if d.im is None else bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    r = m.raw
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(r, j, 0), i, 1)
            out[i, j] = to_s(det(SymArray(minor, m.ld))) * (1 if (i + j) % 2 == 0 else -1) / d
    return SymArray(out, np.result_type(m.ld, float))


def solve(a, b):
    return dot(inv(a), asarray(b))


def where(c, *ab):
    c = asarray(c)
    if not ab:
        return emap(as_bool, c, BOOL).nonzero()
    x, y = asarray(ab[0]), asarray(ab[1])
    sh = np.broadcast_shapes(c.shape, x.shape, y.shape)
    ld = np.result_type(x.ld, y.ld)
    C, X, Y = (np.broadcast_to(v.raw, sh) for v in (c, x, y))
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        out[i] = cast_scalar(ite(as_bool(C[i]), X[i], Y[i]), ld)
    if sh == ():
        return SymArray(out, ld)
    return SymArray(out, ld)


def select(conds, vals, default=0):
    r = asarray(default)
    for c, v in reversed(list(zip(conds, vals))):
        r = where(c, v, r)
    return r


def fft_generic(real_fn):
    def f(a, *args, **kw):
        a = asarray(a)
        if fully_concrete(a) and not has_sym(a):
            return from_native(real_fn(native(a), *args, **kw))
        if a.ndim != 1:
            raise Unsupported("fft of a symbolic matrix")
        n = a.size
        cols = [real_fn(np.eye(n)[k], *args, **kw) for k in range(n)]
        M = np.array(cols).T
        return dot(from_native(M), a.astype(complex))
    return f


def einsum(sub, *ops, **k):
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, outs = sub.split("->")
    else:
        ins = sub
        letters = sorted(set(ins.replace(",", "")))
        outs = "".join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(",")
    ops = [asarray(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = max(dims.get(c, 1), n)
    summed = [c for c in dims if c not in outs]
    out = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for oi in np.ndindex(out.shape):
        env = dict(zip(outs, oi))
        acc = None
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            v = None
            for s, o in zip(ins, ops):
                e = o.raw[tuple(env[c] for c in s)]
                v = e if v is None else to_s(v) * to_s(e)
            acc = v if acc is None else to_s(acc) + to_s(v)
        out[oi] = acc
    ld = np.result_type(*[o.ld for o in ops])
    return out[()] if out.ndim == 0 else SymArray(out, ld)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = do_ufunc(np.absolute, "__call__", (asarray(a) - asarray(b),), {})
    t = atol + rtol * do_ufunc(np.absolute, "__call__", (asarray(b),), {})
    return do_ufunc(np.less_equal, "__call__", (d, t), {})


def _iscomplexobj(x):
    if isinstance(x, (SymArray,)):
        return x.ld.kind == "c"
    if isinstance(x, S):
        return x.kind == "c"
    if hasattr(x, "symsparse"):
        return x.dtype.kind == "c"
    return np.iscomplexobj(x)


def _real(x):
    if isinstance(x, (SymArray, S)):
        return x.real
    if has_sym(x):
        return asarray(x).real
    return np.real(x)


def _imag(x):
    if isinstance(x, (SymArray, S)):
        return x.imag
    if has_sym(x):
        return asarray(x).imag
    return np.imag(x)


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def count_nonzero(a, axis=None, **k):
    m = do_ufunc(np.not_equal, "__call__", (asarray(a), 0), {})
    return reduce_("add", emap(lambda b: to_s(b), m, INT), axis, False)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(b_all(_raw(asarray(isclose(a, b, rtol, atol))).flat))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool(b_all(_raw(asarray(a == b)).flat)) if a.size else True


def like(fill):
    def f(a, *args, dtype=None, shape=None, **k):
        a = asarray(a)
        v = fill
        if fill is None:
            v = args[0] if args else k.get("fill_value")
        elif args:
            dtype = args[0]
        return full(a.shape if shape is None else shape, v, dtype if dtype is not None else a.ld)
    return f


def full(shape, fill_value, dtype=None, **k):
    shape = fix_ints(shape)
    if isinstance(fill_value, np.ndarray) or isinstance(fill_value, (list, tuple)):
        fv = asarray(fill_value)
        r = zeros(shape, dtype if dtype is not None else fv.ld)
        r[...] = fv
        return r
    ld = _dt(dtype) if dtype is not None else elem_dtype(fill_value)
    return zeros(shape, ld, fill_value)


def outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a[:, None] * b[None, :]


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        s = np.broadcast_to(_raw(asarray(src)), dst.shape)
        w = np.broadcast_to(_raw(asarray(where)), dst.shape)
        for i in np.ndindex(dst.shape):
            dst.raw[i] = cast_scalar(ite(as_bool(w[i]), s[i], dst.raw[i]), dst.ld)


def putmask(a, mask, values):
    if np.ndim(values) == 0:
        a[asarray(mask)] = values
    else:
        copyto(a, values, where=mask)


def average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return mean(a, axis)
    a, w = asarray(a), asarray(weights)
    return reduce_("add", a * w, axis) / reduce_("add", w, axis)


def trapz(y, x=None, dx=1.0, axis=-1):
    raise Unsupported("trapz")


def _nan_to_num(x, copy=True, nan=0.0, **k):
    x = asarray(x)
    return emap(lambda e: nan if isinstance(e, S) and e.isnan_ else e, x, x.ld)


def cov_unsupported(*a, **k):
    raise Unsupported("this numpy function on symbolic values")


def percentile(a, q, axis=None, **k):
    return quantile(a, asarray(q) / 100 if isinstance(q, (list, tuple, np.ndarray)) else q / 100, axis=axis, **k)


def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return quantile(a, 0.5, axis=axis, keepdims=keepdims)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **_):
    a = asarray(a)
    if fully_concrete(a) and not has_sym(a):
        r = np.unique(native(a), return_index, return_inverse, return_counts, axis=axis)
        return tuple(from_native(x) for x in r) if isinstance(r, tuple) else from_native(r)
    if axis is not None or return_index or return_inverse or return_counts or a.ld.kind == "c":
        raise Unsupported("unique with options")
    out = []
    for x in sort_list(a.raw.reshape(-1)):
        if not out or not bool(to_s(x) == to_s(out[-1])):
            out.append(x)
    o = np.empty(len(out), dtype=object)
    for k, x in enumerate(out):
        o[k] = x
    return SymArray(o, a.ld)


def flatnonzero(a):
    return asarray(a).ravel().nonzero()[0]


def apply_along_axis(f, axis, a, *args, **k):
    a = asarray(a)
    m = np.moveaxis(a.raw, axis, -1)
    outs = [asarray(f(SymArray(m[i], a.ld), *args, **k)) for i in np.ndindex(m.shape[:-1])]
    sh = outs[0].shape
    o = np.empty(m.shape[:-1] + sh, dtype=object)
    for i, v in zip(np.ndindex(m.shape[:-1]), outs):
        o[i] = v.raw if sh else v.raw[()]
    r = SymArray(o, outs[0].ld)
    if sh:
        r = SymArray(np.moveaxis(r.raw, -1, axis), outs[0].ld)
    return r


OVERRIDE = {}


def _reg():
    O = OVERRIDE
    O.update({
        "where": where, "select": select, "quantile": quantile, "nanquantile": quantile, "percentile": percentile,
        "median": median, "sort": lambda a, axis=-1, **k: sort(a, axis), "argsort": argsort,
        "clip": clip, "dot": lambda a, b, out=None: dot(a, b), "vdot": vdot, "inner": lambda a, b: dot(a, asarray(b).T),
        "outer": outer, "matmul": matmul, "einsum": einsum,
        "sum": lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_("add", a, axis, keepdims, dtype=dtype, out=out, **k),
        "nansum": lambda a, axis=None, **k: reduce_("add", a, axis),
        "prod": lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_("multiply", a, axis, keepdims, **k),
        "mean": lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: mean(a, axis, bool(keepdims)),
        "average": average,
        "var": lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: var(a, axis, ddof, bool(keepdims)),
        "std": lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: do_ufunc(np.sqrt, "__call__", (var(a, axis, ddof, bool(keepdims)),), {}),
        "max": lambda a, axis=None, out=None, keepdims=False, **k: reduce_("maximum", a, axis, keepdims),
        "amax": lambda a, axis=None, out=None, keepdims=False, **k: reduce_("maximum", a, axis, keepdims),
        "min": lambda a, axis=None, out=None, keepdims=False, **k: reduce_("minimum", a, axis, keepdims),
        "amin": lambda a, axis=None, out=None, keepdims=False, **k: reduce_("minimum", a, axis, keepdims),
        "ptp": lambda a, axis=None, **k: asarray(a).ptp(axis),
        "argmax": lambda a, axis=None, **k: argext(a, axis, lambda x, y: x > y),
        "argmin": lambda a, axis=None, **k: argext(a, axis, lambda x, y: x < y),
        "any": lambda a, axis=None, out=None, keepdims=False, **k: reduce_("logical_or", a, axis, keepdims),
        "all": lambda a, axis=None, out=None, keepdims=False, **k: reduce_("logical_and", a, axis, keepdims),
        "alltrue": lambda a, axis=None, **k: reduce_("logical_and", a, axis),
        "cumsum": lambda a, axis=None, **k: cumulate("add", a, axis),
        "cumprod": lambda a, axis=None, **k: cumulate("multiply", a, axis),
        "diff": diff, "count_nonzero": count_nonzero, "nonzero": lambda a: asarray(a).nonzero(),
        "flatnonzero": flatnonzero, "argwhere": lambda a: SymArray(np.array(asarray(a).nonzero()).T.astype(object), INT),
        "isclose": isclose, "allclose": allclose, "array_equal": array_equal,
        "iscomplexobj": _iscomplexobj, "isrealobj": lambda x: not _iscomplexobj(x),
        "iscomplex": lambda x: do_ufunc(np.not_equal, "__call__", (_imag(asarray(x)), 0), {}),
        "isreal": lambda x: do_ufunc(np.equal, "__call__", (_imag(asarray(x)), 0), {}),
        "real": _real, "imag": _imag,
        "real_if_close": lambda a, tol=100: a,
        "zeros_like": like(0), "ones_like": like(1), "empty_like": like(0), "full_like": like(None),
        "norm": norm, "inv": inv, "pinv": inv, "solve": solve, "det": det,
        "copyto": copyto, "putmask": putmask, "place": lambda a, m, v: a.__setitem__(asarray(m), v),
        "nan_to_num": _nan_to_num, "apply_along_axis": apply_along_axis,
        "copy": lambda a, **k: asarray(a).copy(),
        "linspace": cov_unsupported, "cov": cov_unsupported, "angle": lambda z, deg=False: do_ufunc(np.arctan2, "__call__", (_imag(asarray(z)), _real(asarray(z))), {}),
        "trapz": trapz,
        "around": lambda a, decimals=0, out=None: asarray(a).round(decimals),
        "round": lambda a, decimals=0, out=None: asarray(a).round(decimals),
        "fill_diagonal": None,
        "interp": cov_unsupported, "unique": unique, "histogram": cov_unsupported,
        "tensordot": lambda a, b, axes=2: dot(a, b) if axes == 1 else cov_unsupported(),
        "fix": lambda x: do_ufunc(np.trunc, "__call__", (x,), {}),
    })
    del O["fill_diagonal"]


_reg()

INTFUNCS = {"argsort", "argmax", "argmin", "searchsorted", "digitize", "lexsort", "indices"}


def _arrays_in(x, acc):
    if isinstance(x, np.ndarray) or is_sym(x):
        acc.append(x)
    elif isinstance(x, (list, tuple)):
        for e in x:
            _arrays_in(e, acc)
    elif isinstance(x, dict):
        for e in x.values():
            _arrays_in(e, acc)
    return acc


def do_function(func, args, kwargs):
    """A numpy function called with at least one symbolic operand."""
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    arrs = _arrays_in((args, kwargs), [])
    if all(is_concrete(a) for a in arrs) and not any(has_sym(a) for a in arrs) and name not in (
            "copyto", "putmask", "place", "fill_diagonal", "put", "shuffle", "zeros_like", "ones_like", "empty_like", "full_like"):
        out = kwargs.get("out")
        kw = {k: native(v) for k, v in kwargs.items() if k != "out"}
        r = func(*[native(a) for a in args], **kw)
        r = from_native(r)
        if out is not None:
            out[...] = r
            return out
        return r
    if mod.startswith("numpy.fft"):
        if name in ("fft", "ifft", "rfft", "irfft", "hfft", "ihfft"):
            return fft_generic(func)(*args, **kwargs)
    f = OVERRIDE.get(name)
    if f is not None:
        return f(*args, **kwargs)
    # generic: run numpy's implementation on object arrays
    conv = lambda x: (x.raw if isinstance(x, SymArray) else
                      type(x)(conv(e) for e in x) if type(x) in (list, tuple) else
                      (x.astype(object) if isinstance(x, np.ndarray) and x.dtype.kind in "biufc" else x))
    args2 = []
    for i, a in enumerate(args):
        if isinstance(a, S):
            a = fix_ints(a) if a.kind == "i" else a
        args2.append(a)
    before = [a for a in arrs if isinstance(a, SymArray)]
    r = func(*[conv(a) for a in args2], **{k: conv(fix_ints(v)) if not isinstance(v, np.dtype) else v for k, v in kwargs.items()})
    lds = [a.ld if isinstance(a, SymArray) else (a.dtype if isinstance(a, np.ndarray) else elem_dtype(a)) for a in arrs]
    lds = [d for d in lds if d.kind != "O"] or [FLOAT]

    def wrap(x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                inf = infer_ld(x) if x.size else None
                if inf is None:
                    return SymArray(x, np.result_type(*lds))
                if inf.kind == "O":
                    return SymArray(x, object)
                if inf == BOOL or name in INTFUNCS:
                    return SymArray(x, inf)
                return SymArray(x, np.result_type(inf, *lds))
            return from_native(x)
        if isinstance(x, (tuple, list)):
            return type(x)(wrap(e) for e in x)
        return x
    return wrap(r)
