"""Weighted Laplace priors over spherical wavelet coefficients."""
import math

import numpy as rnp

BOUNDS = ("bandlimits 2-7, scale parameters 1.5-4, minimum scales 0-2, 1-3 directions, spins -3..3; threshold any positive number up to 8, every "
          "coefficient vector (symbolic), real and complex; decay exponents 0-2; scales of zero wavelet power are outside, but for the known finding")
ASSUMPTIONS = ["the wavelet generating functions are those of the installed pys2let"]


def rings(L):
    """Exact ring weights per pixel: the only ones integrating all zonal polynomials below L."""
    th = [(2 * t + 1) * math.pi / (2 * L - 1) for t in range(L)]
    A = rnp.array([[rnp.polynomial.legendre.legval(math.cos(t), [0] * l + [1]) for t in th] for l in range(L)])
    b = rnp.zeros(L)
    b[0] = 4 * math.pi / (2 * L - 1)
    return rnp.linalg.solve(A, b)


def bandlimits(L, B, J, n):
    """First scale holds degrees below B^J, wavelet j those below B^(j+1)."""
    return [min(math.ceil(B ** J), L)] + [min(math.ceil(B ** (J + k + 1)), L) for k in range(n)]


def reference(c):
    L, B, J, N = c["L"], c["B"], c["J"], c.get("dirs", 1)
    import pys2let
    phi, psi = pys2let.wavelet_tiling(B, L, N, J, c.get("spin", 0))
    n = psi.shape[1]
    bls = bandlimits(L, B, J, n)
    out = []
    if c["cls"] == "S2_Wavelets_L1":
        for k, bl in enumerate(bls):
            out += [list(rnp.repeat(rings(bl), 2 * bl - 1))] * (1 if k == 0 else 2 * N - 1)
    else:
        for k, bl in enumerate(bls):
            co = phi if k == 0 else psi[:, k - 1]
            p = float(rnp.sum(rnp.abs(co) ** 2))
            peak = 1
            if k:
                m0 = [co[l * l + l].real for l in range(L)]
                peak = m0.index(max(m0)) ** c.get("eta", 1)
            w = [2 * math.pi ** 2 * math.sin((2 * t + 1) * math.pi / (2 * bl - 1)) * peak / (p * bl * (2 * bl - 1)) for t in range(bl)]
            out += [list(rnp.repeat(w, 2 * bl - 1))] * (1 if k == 0 else 2 * N - 1)
    return rnp.array(sum(out, []))


def build(h, T, setting="synthesis"):
    c = h.cfg
    spy = lambda v: v
    kw = dict(dirs=c["dirs"]) if "dirs" in c else {}
    if "spin" in c:
        kw["spin"] = c["spin"]
    if "eta" in c:
        kw["eta"] = c["eta"]
    return getattr(h.mod("prior"), c["cls"])(setting, spy, spy, T, c["L"], c["B"], c["J"], **kw)


def norm(h):
    c = h.cfg
    w = reference(c)
    n = len(w)
    t = h.mod("transforms").SphericalWaveletTransform(c["L"], c["B"], c["J"], dirs=c.get("dirs", 1), spin=c.get("spin", 0))
    h.true("one weight per coefficient of the transform", n == t.ncoefs)
    X = h.vec("X", n, cplx=c.get("complex", False))
    p = build(h, h.real("T", 0.01, 8))
    X0 = X.copy()
    h.eq("prior is the weighted L1 norm", p.prior(X), h.np.sum(h.const(w) * h.np.abs(X0)), scale=10.0 * n)
    h.eq("argument left alone", X, X0)


def entries(h, w, T, pattern):
    """Signed entries on known sides of their thresholds, and what the proximal map makes of them."""
    X, want = [], []
    x = h.vec("x", len(w), lo=1e-9, hi=1000)
    for i in range(len(w)):
        inside = {"in": True, "out": False, "mixed": i % 2 == 0, "mixed2": i % 3 == 0}[pattern]
        sg = -1 if i % 5 in (1, 3) else 1
        inside = inside and w[i] > 1e-9
        if inside:
            h.assume(x[i] <= T * (w[i] * (1 - 1e-9)))
        else:
            h.assume(x[i] >= T * (w[i] * (1 + 1e-9)))
        X.append(sg * x[i])
        want.append(0 * T if inside else sg * (x[i] - w[i] * T))
    return h.seq(X), h.seq(want)


def prox(h):
    """Entries inside their own threshold vanish, the others shrink by it: threshold = T * weight."""
    w = reference(h.cfg)
    T = h.real("T", 0.01, 8)
    pattern = h.cfg["sides"]
    X, want = entries(h, w, T, pattern)
    r = build(h, T).proxf(X)
    for i in range(len(w)):
        h.eq("proximal map", r[i], want[i], tol=1e-7)


def prox1(h):
    """One entry anywhere, real or complex, against its own threshold."""
    c = h.cfg
    w = reference(c)
    i = c["i"] % len(w)
    T = h.real("T", 0.01, 8)
    x = h.cplx("x") if c.get("complex") else h.real("x")
    X = h.np.zeros(len(w), dtype=complex if c.get("complex") else float)
    X[i] = x
    r = build(h, T).proxf(X)
    a = h.np.abs(x)
    if h.is_true(a <= T * (w[i] * (1 - 1e-9))):
        h.eq("inside: zero", r[i], 0 * x)
    elif h.is_true(a >= T * (w[i] * (1 + 1e-9))):
        h.eq("outside: shrinks by T times the weight", r[i] * a, x * (a - T * w[i]), tol=1e-6, scale=10.0)
    for j in range(len(w)):
        if j != i:
            h.eq("others stay zero", r[j], 0 * x)


def same(h):
    """Threshold and norm use the same weights: the proximal map lowers the prior by T times the sum of squared weights."""
    c = h.cfg
    w = reference(c)
    T = h.real("T", 0.01, 8)
    X, _ = entries(h, w, T, "out")
    p = build(h, T)
    r = p.proxf(X.copy())
    s = sum(float(v) ** 2 for v in w)
    h.eq("decrease of the prior", p.prior(X.copy()) - p.prior(r), T * s, tol=1e-7, scale=10.0)


def finite(h):
    """No weight is infinite or undefined: vanishing coefficients have prior zero and stay put."""
    n = h.mod("transforms").SphericalWaveletTransform(h.cfg["L"], h.cfg["B"], h.cfg["J"]).ncoefs
    p = build(h, h.real("T", 0.01, 8))
    X = h.np.zeros(n)
    h.eq("prior of zero coefficients", p.prior(X.copy()), 0 * h.real("o"))
    h.eq("zero coefficients stay zero", p.proxf(X.copy()), X)


def refused(h):
    h.raises("analysis setting is refused", Exception, build, h, 0.5, "analysis")
    h.raises("unknown setting is refused", Exception, build, h, 0.5, "neither")


_A = [dict(cls="S2_Wavelets_L1", **k) for k in (dict(L=2, B=2, J=0), dict(L=3, B=2, J=1), dict(L=4, B=2, J=1), dict(L=3, B=3, J=0), dict(L=3, B=2, J=1, dirs=2),
                                               dict(L=3, B=3, J=0, dirs=3), dict(L=3, B=2, J=2), dict(L=3, B=2, J=1, spin=1), dict(L=5, B=2, J=1), dict(L=5, B=1.5, J=1),
                                               dict(L=2, B=2, J=0, dirs=2), dict(L=4, B=3, J=1, dirs=2, spin=2), dict(L=6, B=2, J=0), dict(L=7, B=3, J=1))]
_W = [dict(cls="S2_Wavelets_L1_Power_Weights", **k) for k in (dict(L=3, B=3, J=0), dict(L=4, B=2, J=1), dict(L=3, B=3, J=1, eta=2), dict(L=4, B=2, J=2, eta=0.5),
                                                             dict(L=4, B=2, J=0, eta=0), dict(L=7, B=2, J=1, eta=1.5), dict(L=6, B=3, J=0, eta=2),
                                                             dict(L=3, B=3, J=1, dirs=2), dict(L=4, B=2, J=1, dirs=3, spin=1), dict(L=4, B=4, J=1, spin=3, eta=0.5), dict(L=4, B=4, J=1, spin=-3))]
_T = [dict(cls="S2_Wavelets_L1", **k) for k in (dict(L=5, B=2, J=0), dict(L=6, B=2, J=1), dict(L=6, B=3, J=1), dict(L=4, B=2, J=1, dirs=3))] + \
     [dict(cls="S2_Wavelets_L1_Power_Weights", **k) for k in (dict(L=5, B=1.5, J=1, eta=2), dict(L=6, B=3, J=1), dict(L=6, B=2, J=2, eta=1.5))]
HISTORY = True


def VARIANTS(c):
    out = [dict(c, spin=c.get("spin", 0) + 1), dict(c, dirs=c.get("dirs", 1) % 2 + 1)]
    return out + ([dict(c, eta=c.get("eta", 1) + 1)] if c["cls"] != "S2_Wavelets_L1" else [])


HARNESSES = {
    "norm": dict(fn=norm, quick=_A + _W + [dict(_A[1], complex=True), dict(_W[0], complex=True)], thorough=_T),
    "prox": dict(fn=prox, history=False, quick=[dict(c, sides=k) for c in _A + _W for k in ("in", "out", "mixed")], thorough=[dict(c, sides=k) for c in _T for k in ("mixed", "mixed2")]),
    "prox1": dict(fn=prox1, history=False, quick=[dict(c, i=i, complex=z) for c in (_A[1], _A[4], _W[0], _W[2]) for i in (0, 7, -6, -17) for z in (False, True)],
                  thorough=[dict(c, i=i, complex=True) for c in (_A[2], _W[1]) for i in (3, 20, 40, -20)]),
    "same": dict(fn=same, quick=_A[:4] + _W[:3], thorough=_T),
    "finite": dict(fn=finite, history=False, quick=[_A[1], _A[8], _W[1], _W[5], dict(cls="S2_Wavelets_L1_Power_Weights", L=4, B=3, J=0), dict(cls="S2_Wavelets_L1", L=4, B=3, J=0)]),
    "refused": dict(fn=refused, quick=[_A[1], _W[0]]),
}
