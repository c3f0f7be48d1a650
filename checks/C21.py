"""Chebyshev polynomials and their derivatives."""
BOUNDS = ("orders 0-18 (quick) / 0-22 (thorough), every real argument, scalars, arrays and whole numbers (kept exact)")


def coeffs(n, kind):
    """Coefficients (lowest first) from the trigonometric definition: T_n = Re (x + i sqrt(1-x^2))^n, U_n by division."""
    from math import comb
    out = [0] * (n + 1)
    if kind == 1:
        for k in range(0, n // 2 + 1):          # sum C(n,2k) (x^2-1)^k x^(n-2k)
            for j in range(k + 1):
                out[n - 2 * k + 2 * j] += comb(n, 2 * k) * comb(k, j) * (-1) ** (k - j)
    else:
        for k in range(0, n // 2 + 1):          # sum C(n+1,2k+1) (x^2-1)^k x^(n-2k)
            for j in range(k + 1):
                out[n - 2 * k + 2 * j] += comb(n + 1, 2 * k + 1) * comb(k, j) * (-1) ** (k - j)
    return out


def poly(co, x):
    s = 0 * x
    p = 0 * x + 1
    for a in co:
        s = s + a * p
        p = p * x
    return s


def values(h):
    c = h.cfg
    n = c["n"]
    u = h.mod("utils")
    x = h.vec("x", 2) if c["array"] else h.real("x", -4, 4)
    z = 0 * x
    sc = float(9 ** n)
    h.eq("first kind", u.chebyshev1(x, n) + z, poly(coeffs(n, 1), x), scale=sc)
    h.eq("second kind", u.chebyshev2(x, n) + z, poly(coeffs(n, 2), x), scale=sc)
    d = [k * a for k, a in enumerate(coeffs(n, 1))][1:] or [0]
    h.eq("derivative", u.cheb1der(x, n) + z, poly(d, x), scale=sc)


def whole(h):
    """Whole numbers and arrays of them, as Python and numpy make them."""
    c = h.cfg
    u, n = h.mod("utils"), c["n"]
    x = h.const(c["x"], dtype=int) if isinstance(c["x"], list) else c["x"]
    xf = x * 1.0
    h.eq("first kind", u.chebyshev1(x, n) + 0 * xf, poly(coeffs(n, 1), xf))
    h.eq("second kind", u.chebyshev2(x, n) + 0 * xf, poly(coeffs(n, 2), xf))
    d = [k * a for k, a in enumerate(coeffs(n, 1))][1:] or [0]
    h.eq("derivative", u.cheb1der(x, n) + 0 * xf, poly(d, xf))


def refused(h):
    u = h.mod("utils")
    x = h.real("x")
    n = h.int("n", -6, -1)
    for f in (u.chebyshev1, u.chebyshev2, u.cheb1der):
        h.raises("negative order", ValueError, f, x, n)


HISTORY = True
HARNESSES = {
    "values": dict(fn=values, quick=[dict(n=n, array=False) for n in range(19)] + [dict(n=n, array=True) for n in (0, 1, 2, 5, 8)],
                   thorough=[dict(n=n, array=False) for n in range(19, 23)]),
    "whole": dict(fn=whole, quick=[dict(n=n, x=x) for n in (0, 1, 2, 3, 7) for x in (-2, 0, 1, 3, [1, -1, 2])]),
    "refused": dict(fn=refused, quick=[{}]),
}
