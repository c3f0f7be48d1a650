"""Forward operators: prediction = measurement of the (synthesised) image, gradient = its exact derivative."""
from .common import inner, quadform

BOUNDS = ("arbitrary transforms and measurements with 1-3 and 9-12 data points and parameters, mixed real and complex; the spherical wavelet and path operators at bandlimit 2 "
          "(quick) / 2-3 (thorough), both settings, real and complex parameters, all entries of parameters, data, noise and path matrix symbolic")


class Part:
    """A transform or measurement operator of which nothing is known."""

    def __init__(self, h, name, methods, nout, cplx):
        self.o = {}
        for m, k in zip(methods, nout):
            self.o[m] = h.oracle(f"{name}_{m}", k, cplx=cplx)
            setattr(self, m, self.o[m])


def compose(h):
    c = h.cfg
    np = h.np
    z, n, npix, nd = c["complex"], c["n"], c["npix"], c["nd"]
    t = Part(h, "T", ("inverse", "inverse_adjoint", "forward", "forward_adjoint"), (npix, n, n, npix), z)
    m = Part(h, "M", ("forward", "adjoint"), (nd, npix), z)
    data = h.vec("d", nd, cplx=c.get("dcomplex", z))
    sig = h.vec("s", nd, pos=True)
    nparams = n if c["setting"] == "synthesis" else npix
    op = h.mod("forward").ForwardOperator(data.copy(), sig, c["setting"], transform=t, measurement=m, nparams=nparams)
    X = h.vec("X", nparams, cplx=c.get("xcomplex", z))
    p = h.vec("p", nd, cplx=z)
    res = (p - data) / (sig * sig)
    g = m.o["adjoint"].lookup(res)
    if c["setting"] == "synthesis":
        h.eq("prediction", op.forward(X.copy()), m.o["forward"].lookup(t.o["inverse"].lookup(X)))
        h.eq("gradient", op.calc_gradg(p.copy()), t.o["inverse_adjoint"].lookup(g))
    else:
        h.eq("prediction", op.forward(X.copy()), m.o["forward"].lookup(X))
        h.eq("gradient", op.calc_gradg(p.copy()), g)
    h.true("number of parameters", op.nparams == nparams)
    h.eq("data kept", op.data, data)


def bad(h):
    c = h.cfg
    f = h.mod("forward")
    h.raises("unknown setting", ValueError, f.ForwardOperator, h.vec("d", 2), 0.5, c["setting"])


def some(h, name, n, cplx):
    """A vector with three arbitrary entries, the others fixed."""
    z = (lambda i: complex((3 * i % 8 - 4) / 4, (5 * i % 8 - 3) / 8)) if cplx else (lambda i: (3 * i % 8 - 4) / 4)
    X = h.const([z(i) for i in range(n)])
    for i in (0, n // 2, n - 1):
        X[i] = h.cplx(f"{name}{i}") if cplx else h.real(f"{name}{i}")
    return X


def operator(h):
    """The ready-made spherical operators: prediction and exact Taylor expansion of the misfit."""
    c = h.cfg
    np = h.np
    L, B, J, z, dz = c["L"], c["B"], c["J"], c["complex"], c["dcomplex"]
    f, tr = h.mod("forward"), h.mod("transforms")
    npix = L * (2 * L - 1)
    nd = npix if c["op"] == "wavelet" else c["nd"]
    opt = {k: c[k] for k in ("dirs", "spin") if k in c}
    vec = (lambda name, m, cplx: some(h, name, m, cplx)) if c.get("some") else h.vec
    data = vec("d", nd, cplx=dz)
    sig = h.real("s", pos=True) if c.get("noise") == "scalar" else h.vec("s", nd, pos=True)
    W = np.diag(1 / (sig * sig)) if c.get("noise") != "scalar" else np.diag(h.seq([1 / (sig * sig)] * nd))
    if c["op"] == "wavelet":
        op = f.SphericalWaveletTransformOperator(data.copy(), sig, c["setting"], L, B, J, **opt)
        A = None
    else:
        if c.get("some"):
            A = h.const([[((5 * i + 3 * j) % 7 - 3) / 4 for j in range(npix)] for i in range(nd)])
            A[nd - 1, 2] = h.real("A")
        else:
            A = h.mat("A", nd, npix)
        op = f.PathIntegralOperator(h.sparse(A), data.copy(), sig, c["setting"], L, B, J, **opt)
    ref = tr.SphericalWaveletTransform(L, B, J, **opt)
    n = npix if c["setting"] == "analysis" else ref.ncoefs
    h.true("number of parameters", op.nparams == n)
    X, H = vec("X", n, cplx=z), vec("H", n, cplx=z)
    if c.get("few"):        # perturb a few coordinates only (keeps the expressions small)
        for i in range(n):
            if i % c["few"]:
                H[i] = 0 * H[i]
    img = X if c["setting"] == "analysis" else ref.inverse(X)
    p0 = op.forward(X.copy())
    h.eq("prediction", p0, img if A is None else np.dot(A, img))
    imgH = H if c["setting"] == "analysis" else ref.inverse(H)
    pH = imgH if A is None else np.dot(A, imgH)
    g = op.calc_gradg(p0)
    r = p0 - data
    h.eq("gradient is the exact derivative of the misfit", np.real(inner(h, g, H)),
         np.real(inner(h, pH, np.dot(W, r))))


def _c(**k):
    return k


HISTORY = True


def VARIANTS(c):
    if "op" not in c:
        return []
    return [dict(c, spin=c.get("spin", 0) + 1), dict(c, dirs=c.get("dirs", 1) % 2 + 1), dict(c, setting="analysis" if c["setting"] == "synthesis" else "synthesis")]


HARNESSES = {
    "compose": dict(fn=compose, quick=[_c(setting=s, n=n, npix=q, nd=d, complex=z) for s in ("analysis", "synthesis")
                                       for n, q, d, z in ((1, 1, 1, False), (2, 3, 2, False), (3, 2, 1, True), (1, 2, 3, True), (12, 9, 10, True))] +
                    [_c(setting=s, n=2, npix=3, nd=2, complex=True, dcomplex=a, xcomplex=b) for s in ("analysis", "synthesis")
                     for a, b in ((False, True), (True, False), (False, False))]),
    "bad": dict(fn=bad, quick=[_c(setting=s) for s in ("", "Analysis", "synthesys", "both")] + [_c(setting=None)]),
    "operator": dict(fn=operator, quick=[
        _c(op=o, setting=s, L=2, B=2, J=j, nd=2, complex=z, dcomplex=dz, noise=ns) for o, s, j, z, dz, ns in
        (("wavelet", "synthesis", 0, True, True, "vector"), ("wavelet", "synthesis", 0, False, False, "scalar"), ("wavelet", "analysis", 0, False, False, "vector"),
         ("wavelet", "synthesis", 1, True, True, "scalar"), ("path", "synthesis", 0, False, False, "scalar"), ("path", "analysis", 0, True, True, "vector"),
         ("path", "synthesis", 0, True, True, "vector"), ("path", "synthesis", 1, False, False, "vector"),
         ("wavelet", "synthesis", 0, True, False, "scalar"), ("path", "synthesis", 0, True, False, "scalar"), ("path", "analysis", 0, True, False, "vector"),
         ("path", "analysis", 0, False, True, "vector"))] + [
        _c(op=o, setting=s, L=L, B=b, J=j, nd=3, complex=z, dcomplex=z, noise=ns, some=True, **k) for o in ("wavelet", "path") for s, L, b, j, z, ns, k in
        (("synthesis", 3, 2, 0, True, "scalar", {}), ("synthesis", 4, 3, 1, False, "scalar", {}), ("synthesis", 3, 2, 0, True, "scalar", dict(dirs=2)),
         ("synthesis", 4, 2, 0, True, "scalar", dict(dirs=3)), ("synthesis", 4, 2, 2, True, "scalar", dict(spin=2)), ("synthesis", 3, 2, 0, True, "scalar", dict(spin=1, dirs=2)),
         ("analysis", 3, 2, 0, True, "scalar", dict(spin=1, dirs=2)), ("analysis", 4, 2, 1, False, "vector", {}))],
        thorough=[_c(op=o, setting=s, L=3, B=b, J=j, nd=2, complex=z, dcomplex=z, noise="vector", few=5) for o, s, b, j, z in
                  (("wavelet", "synthesis", 2, 0, True), ("wavelet", "synthesis", 3, 1, False), ("path", "synthesis", 2, 1, False), ("path", "analysis", 2, 1, True))]),
}
