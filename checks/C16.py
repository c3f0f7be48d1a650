"""Spherical wavelet transforms: exact reconstruction, matching adjoints, coefficient layout."""
from .common import inner

BOUNDS = ("bandlimits 2-6 (quick) / 2-8 (thorough), scale parameters 1.5-5, minimum scales 0-3, 1-5 directions, spins -2..2; pixel and harmonic space; "
          "every band-limited signal / every coefficient vector (symbolic), real and complex arrays")
ASSUMPTIONS = ["the installed pys2let and pyssht are linear maps; their matrices are read off the library for each configuration"]


def setup(h):
    c = h.cfg
    L, s = c["L"], c.get("spin", 0)
    t = h.mod("transforms").SphericalWaveletTransform(L, c["B"], c["J"], dirs=c.get("dirs", 1), spin=s, harmonic=c.get("harmonic", False))
    return c, L, s, t


def signal(h, L, s, harmonic, real=False):
    """An arbitrary band-limited signal."""
    ss = h.lib("pyssht")
    if real:
        # a real signal: f_{l,-m} = (-1)^m conj(f_{lm})
        np = h.np
        flm = np.zeros(L * L, dtype=complex)
        for l in range(L):
            flm[l * l + l] = h.real(f"f{l}_0") + 0j
            for m in range(1, l + 1):
                v = h.cplx(f"f{l}_{m}")
                flm[l * l + l + m] = v
                flm[l * l + l - m] = (-1) ** m * np.conj(v)
        f = ss.inverse(flm, L, Spin=0)
        return h.np.real(f).flatten()
    flm = h.vec("f", L * L, cplx=True)
    for i in range(s * s):
        flm[i] = 0 * flm[i]
    return flm if harmonic else ss.inverse(flm, L, Spin=s).flatten()


def roundtrip(h):
    c, L, s, t = setup(h)
    f = signal(h, L, s, c.get("harmonic"), c.get("real"))
    w = t.forward(f.copy())
    h.true("number of coefficients", w.shape == (t.ncoefs,) and t.ncoefs == t.nscal + t.nwav)
    h.eq("reconstruction", t.inverse(w), f, scale=10.0)


def adjoint(h):
    c, L, s, t = setup(h)
    npix = L * L if c.get("harmonic") else L * (2 * L - 1)
    which = c["which"]
    if which == "forward":
        f, w = signal(h, L, s, c.get("harmonic")), h.vec("w", t.ncoefs, cplx=True)
        if not c.get("harmonic"):
            f = h.vec("p", npix, cplx=True)
        a, b = t.forward(f.copy()), t.forward_adjoint(w.copy())
        h.true("sizes", a.shape == (t.ncoefs,) and b.shape == (npix,))
        h.eq("adjoint of analysis", inner(h, a, w), inner(h, f, b), scale=100.0)
    else:
        f, w = h.vec("p", npix, cplx=True), h.vec("w", t.ncoefs, cplx=True)
        a, b = t.inverse(w.copy()), t.inverse_adjoint(f.copy())
        h.true("sizes", a.shape == (npix,) and b.shape == (t.ncoefs,))
        h.eq("adjoint of synthesis", inner(h, a, f), inner(h, w, b), scale=100.0)


def layout(h):
    """Scaling coefficients first, then the wavelets; the library's own split."""
    c, L, s, t = setup(h)
    lib = h.lib("pys2let")
    f = signal(h, L, s, c.get("harmonic"))
    fn = lib.analysis_lm2lmn if c.get("harmonic") else lib.analysis_px2wav
    wav, scal = fn(f.copy(), B=c["B"], L=L, J_min=c["J"], N=c.get("dirs", 1), spin=s, upsample=0)
    w = t.forward(f.copy())
    h.true("counts", t.nscal == scal.shape[0] and t.nwav == wav.shape[0])
    h.true("advertised number of scales", t.nscales == lib.pys2let_j_max(c["B"], L, c["J"]) - c["J"] + 1)
    h.eq("scaling coefficients first", w[:t.nscal], scal)
    h.eq("then the wavelets", w[t.nscal:], wav)


def dtype(h):
    """Real arrays are accepted and give what their complex copies give."""
    c, L, s, t = setup(h)
    npix = L * L if c.get("harmonic") else L * (2 * L - 1)
    f, w = h.vec("p", npix), h.vec("w", t.ncoefs)
    for name, x in (("forward", f), ("inverse_adjoint", f), ("inverse", w), ("forward_adjoint", w)):
        fn = getattr(t, name)
        h.eq(name, fn(x.copy()), fn(x.astype(complex)))


_P = [dict(L=2, B=2, J=0), dict(L=3, B=2, J=1), dict(L=3, B=3, J=0), dict(L=4, B=2, J=1)]
_H = [dict(L=4, B=2, J=1, harmonic=True), dict(L=3, B=2, J=0, harmonic=True)]
_X = [dict(L=3, B=2, J=0, spin=2), dict(L=3, B=2, J=1, dirs=2), dict(L=3, B=2, J=1, dirs=2, harmonic=True), dict(L=4, B=2, J=2, harmonic=True), dict(L=4, B=1.5, J=2),
      dict(L=3, B=2, J=0, spin=1), dict(L=4, B=3, J=1, dirs=3), dict(L=4, B=2, J=2), dict(L=5, B=2, J=1, harmonic=True), dict(L=4, B=2, J=1, dirs=2, spin=2),
      dict(L=4, B=2, J=1, spin=2, harmonic=True), dict(L=5, B=2, J=1), dict(L=4, B=3, J=0, dirs=3, harmonic=True), dict(L=2, B=3, J=0), dict(L=6, B=2, J=0),
      dict(L=3, B=2, J=0, spin=-1), dict(L=4, B=2, J=1, spin=-2), dict(L=4, B=1.5, J=3), dict(L=3, B=2, J=0, dirs=2, spin=-1, harmonic=True)]
_T = [dict(L=8, B=3, J=1), dict(L=7, B=2, J=1), dict(L=6, B=3, J=1), dict(L=6, B=2, J=2, harmonic=True), dict(L=4, B=2, J=0, dirs=3), dict(L=4, B=2, J=0, spin=2, dirs=2)]
_D = [dict(L=4, B=4, J=1, dirs=4), dict(L=5, B=5, J=1, dirs=5), dict(L=4, B=4, J=0, dirs=4, harmonic=True), dict(L=4, B=3, J=0, dirs=3, spin=-2)]
HISTORY = True


def VARIANTS(c):
    return [dict(c, spin=c.get("spin", 0) + 1), dict(c, dirs=c.get("dirs", 1) % 2 + 1), dict(c, harmonic=not c.get("harmonic", False))]


HARNESSES = {
    "roundtrip": dict(fn=roundtrip, quick=_P + _H + _X + _D + [dict(L=L, B=B, J=J, real=True) for L, B, J in ((3, 2, 1), (5, 3, 0), (4, 2, 2))], thorough=_T + [dict(L=5, B=2, J=1, real=True)]),
    "adjoint": dict(fn=adjoint, quick=[dict(which=w, **c) for w in ("forward", "inverse") for c in _P + _H + _X[:14] + _X[15:]],
                    thorough=[dict(which=w, **c) for w in ("forward", "inverse") for c in _T[1:4] + _P[3:]]),
    "layout": dict(fn=layout, quick=_P + _H + _X + _D[:1] + _D[2:], thorough=_T[:3]),
    "dtype": dict(fn=dtype, quick=_P + _H + _X[:10], thorough=_P[2:]),
}
