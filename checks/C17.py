"""Soft thresholding is the proximal map of a (weighted) L1 norm."""
BOUNDS = ("vectors of length 1-3 (quick) / 6 (thorough), real and complex, arbitrary entries; thresholds any non-negative reals, one for all entries or one per "
          "entry; the minimisation is checked against every competitor (symbolic)")


def check(h, x, T, r):
    """r is the soft threshold of the number x."""
    np = h.np
    a = np.abs(x)
    if h.is_true(a <= T):
        h.eq("entries up to the threshold become zero", r, 0 * x)
    else:
        h.eq("larger entries shrink by the threshold, phase kept", r * a, x * (a - T))


def soft(h):
    c = h.cfg
    n, z = c["n"], c["complex"]
    X = h.vec("X", n, cplx=z)
    T = h.vec("T", n, nonneg=True) if c["T"] == "vector" else h.real("T", nonneg=True)
    r = h.mod("utils").soft(X.copy(), T)
    h.true("same length", r.shape == (n,))
    for i in range(n):
        check(h, X[i], T[i] if c["T"] == "vector" else T, r[i])


def large(h):
    """Longer vectors, a few entries and thresholds arbitrary."""
    c = h.cfg
    n, z = c["n"], c["complex"]
    num = lambda i: (complex((7 * i % 16 - 8) / 4, (5 * i % 16 - 7) / 8) if z else (7 * i % 16 - 8) / 4) if i % 5 else (0j if z else 0.0)
    X = h.const([num(i) for i in range(n)])
    X[1] = h.cplx("x") if z else h.real("x")
    T = h.const([(3 * i % 8) / 4 for i in range(n)]) if c["T"] == "vector" else h.real("T", nonneg=True)
    if c["T"] == "vector":
        T[1] = h.real("T1", nonneg=True)
    r = h.mod("utils").soft(X.copy(), T.copy() if c["T"] == "vector" else T)
    h.true("same length", r.shape == (n,))
    for i in range(n):
        check(h, X[i], T[i] if c["T"] == "vector" else T, r[i])


def ints(h):
    """Whole numbers are thresholded like any others."""
    c = h.cfg
    v = [3, -1, 0, 70001, -4097, 2, -123456789]
    X = h.const(v, dtype=int)
    T = h.const([1, 2, 1, 5, 3, 2, 1], dtype=int) if c["T"] == "ints" else h.const([0.5 * i for i in range(7)]) if c["T"] == "vector" else 2 if c["T"] == "int" else h.real("T", nonneg=True)
    r = h.mod("utils").soft(list(v) if c.get("list") else X, T)
    for i in range(len(v)):
        check(h, h.const(float(v[i])), T if c["T"] in ("int", "real") else T[i], r[i])
    h.eq("input unchanged", X, h.const(v, dtype=int))


def given_list(h):
    """A plain list works like an array."""
    X = h.vec("X", 2, cplx=h.cfg["complex"])
    T = h.real("T", nonneg=True)
    u = h.mod("utils")
    h.eq("list input", u.soft([X[0], X[1]], T), u.soft(X.copy(), T))


def default(h):
    X = h.vec("X", 1)
    u = h.mod("utils")
    h.eq("default threshold", u.soft(X.copy()), u.soft(X.copy(), 0.1))


def optimal(h):
    """No other point has a smaller value of |u - x|^2 / 2 + T |u|."""
    np = h.np
    x, T = h.real("x"), h.real("T", nonneg=True)
    u = h.real("u")
    r = h.mod("utils").soft(h.seq([x]), T)[0]
    f = lambda v: (v - x) * (v - x) / 2 + T * np.abs(v)
    h.true("minimiser", f(r) <= f(u) + 1e-9 * (1 if h.mode == "sym" else 1e3))


_Q = [dict(n=n, complex=z, T=t) for n in (1, 2, 3, 4) for z in (False, True) for t in ("scalar", "vector")]
HISTORY = True
HARNESSES = {
    "soft": dict(fn=soft, quick=_Q, thorough=[dict(n=5, complex=z, T=t) for z in (False, True) for t in ("scalar", "vector")]),
    "large": dict(fn=large, quick=[dict(n=n, complex=z, T=t) for n in (9, 20) for z in (False, True) for t in ("vector",)] + [dict(n=9, complex=False, T="scalar")]),
    "ints": dict(fn=ints, quick=[dict(T=t) for t in ("int", "ints", "real", "vector")] + [dict(T="real", list=True)]),
    "given_list": dict(fn=given_list, quick=[dict(complex=z) for z in (False, True)]),
    "default": dict(fn=default, quick=[{}]),
    "optimal": dict(fn=optimal, quick=[{}]),
}
