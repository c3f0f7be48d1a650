"""The gradient used by the samplers is the gradient of the log likelihood they report."""
from .common import abs2

BOUNDS = ("1-12 data points, 1-10 parameters (most configurations 1-3), real and complex model matrix, data and parameters in every combination; noise "
          "given as a scalar, a vector, a fixed dense or Hermitian covariance up to 7x7, or an arbitrary covariance matrix of size up to 2 (quick) / 3 "
          "(thorough); analysis and synthesis; all entries symbolic")


class MatTransform:
    """A linear transform given by an arbitrary matrix."""

    def __init__(self, h, M):
        self.h, self.M = h, M

    def inverse(self, X):
        return self.h.np.dot(self.M, X)

    def inverse_adjoint(self, X):
        return self.h.np.dot(self.h.np.conj(self.M).T, X)


class ZeroPrior:
    def __init__(self, h, n, z):
        self.Q = h.oracle("prior", 1, scalar=True)
        self.P = h.oracle("prox", n, cplx=z)

    def prior(self, X):
        return self.Q(X)

    def proxf(self, X):
        return self.P(X)


def noise(h, kind, nd):
    np = h.np
    if kind == "scalar":
        s = h.real("sig", pos=True)
        return s, np.diag(h.seq([1 / (s * s)] * nd))
    if kind == "vector":
        s = h.vec("sig", nd, pos=True)
        return s, np.diag(1 / (s * s))
    if kind in ("dense", "hermitian"):
        # a fixed covariance matrix L L^H with every pair of data correlated; L unit triangular, so the inverse is exact
        z = kind == "hermitian"
        off = lambda i, j: ((0.5 + (0.25j if z else 0)) if (i + j) % 2 else -0.5 + (0.5j if z else 0))
        L = [[(1.0 + 0j * z) if i == j else off(i, j) if i > j else 0.0 for j in range(nd)] for i in range(nd)]
        inv = [[0.0] * nd for _ in range(nd)]
        for j in range(nd):
            for i in range(j, nd):
                inv[i][j] = (1.0 if i == j else 0.0) - sum(L[i][k] * inv[k][j] for k in range(j, i))
        cov = [[sum(L[i][k] * complex(L[j][k]).conjugate() for k in range(nd)) for j in range(nd)] for i in range(nd)]
        W = [[sum(complex(inv[k][i]).conjugate() * inv[k][j] for k in range(nd)) for j in range(nd)] for i in range(nd)]
        if not z:
            cov, W = ([[complex(e).real for e in r] for r in M] for M in (cov, W))
        return h.const(cov), h.const(W)
    # an arbitrary positive-definite matrix, through its Cholesky factor
    L = np.zeros((nd, nd))
    for i in range(nd):
        for j in range(i):
            L[i, j] = h.real(f"chol{i}{j}")
        L[i, i] = h.real(f"chol{i}{i}", pos=True)
    cov = np.dot(L, L.T)
    Li = np.linalg.inv(L)
    return cov, np.dot(Li.T, Li)


def quadform(h, W, r):
    np = h.np
    return np.real(np.sum(np.conj(r) * np.dot(W, r)))


def gradient(h):
    c = h.cfg
    n, nd, z, dz, mz = c["n"], c["nd"], c["complex"], c["dcomplex"], c["mcomplex"]
    np = h.np
    fwdm, meas, mcmc = h.mod("forward"), h.mod("measurements"), h.mod("mcmc")
    npix = c.get("npix", n)
    A = h.mat("A", nd, npix, cplx=mz)
    data = h.vec("d", nd, cplx=dz)
    sig, W = noise(h, c["noise"], nd)
    measurement = meas.PathIntegral(h.sparse(A))
    if c["setting"] == "synthesis":
        M = h.mat("M", npix, n, cplx=mz)
        tr = MatTransform(h, M)
        B = np.dot(A, M)
    else:
        tr, B = None, A
    op = fwdm.ForwardOperator(data.copy(), sig, c["setting"], transform=tr, measurement=measurement, nparams=n)
    X, H = h.vec("X", n, cplx=z), h.vec("H", n, cplx=z)
    mu = h.real("mu", pos=True)
    lm = h.real("lmda", pos=True)
    pr = ZeroPrior(h, n, z)
    params = mcmc.PxMCMCParams(mu=mu, lmda=lm, delta=h.real("delta", pos=True), nsamples=1, nburn=0, ngap=1, complex=z, verbosity=0)
    s = mcmc.MYULA(op, pr, params)
    p0 = op.forward(X.copy())
    h.eq("model prediction", p0, np.dot(B, X))
    logpi0, L2, prior = s.logpi(X.copy(), p0)
    p1 = op.forward(X + H)
    logpi1, L2b, _ = s.logpi(X + H, p1)
    r = data - np.dot(B, X)
    h.eq("L2 is the weighted squared residual", L2, quadform(h, W, r))
    h.eq("prior term", prior, pr.Q.lookup(X))
    h.eq("log posterior is real", h.np.imag(logpi0), 0 * h.np.real(logpi0))
    h.eq("log posterior", logpi0, -mu * pr.Q.lookup(X) - L2 / 2)
    if c.get("fresh"):
        # an array like the predictions, in the memory of one that is gone
        del logpi0, p0
        op.calc_gradg(h.vec("e", nd, cplx=z or mz))
        g = op.calc_gradg(op.forward(X))
    else:
        g = op.calc_gradg(p0)
    h.eq("exact Taylor expansion of the data misfit", (L2b - L2) / 2,
         np.real(np.sum(np.conj(g) * H)) + quadform(h, W, np.dot(B, H)) / 2)


def full(h):
    """The gradient of the smoothed log posterior."""
    from .common import Setup
    c = h.cfg
    st = Setup(h, c["cls"], n=c["n"], nd=2, cplx=c["complex"], dcplx=c["complex"], **({"s": 2} if c["cls"] == "SKROCK" else {}))
    if not hasattr(st.s, "_gradlogpi"):
        return
    X = h.vec("X", c["n"], cplx=c["complex"])
    want = -(X - st.prior.P.lookup(X)) / st.lmda - st.fwd.grad_at(X)
    h.eq("smoothed gradient", st.s._gradlogpi(X.copy()), want)
    h.eq("smoothed gradient, predictions given", st.s._gradlogpi(X.copy(), st.fwd.preds_at(X)), want)


def _c(n, nd, noise, setting="analysis", z=False, dz=False, mz=False, **k):
    return dict(n=n, nd=nd, noise=noise, setting=setting, complex=z, dcomplex=dz, mcomplex=mz, **k)


HISTORY = True
HARNESSES = {
    "full": dict(fn=full, quick=[dict(cls=k, n=n, complex=z) for k in ("MYULA", "PxMALA", "SKROCK") for n, z in ((1, False), (3, True))]),
    "gradient": dict(fn=gradient, quick=[
        _c(2, 5, "dense"), _c(3, 4, "dense", "synthesis", npix=2), _c(2, 4, "dense", z=True, dz=True, mz=True), _c(1, 7, "dense", dz=True, mz=True),
        _c(2, 2, "hermitian", z=True, dz=True, mz=True), _c(1, 4, "hermitian", "synthesis", z=True, dz=True, mz=True, npix=2),
        _c(2, 2, "scalar", fresh=True), _c(1, 2, "vector", z=True, dz=True, mz=True, fresh=True), _c(1, 1, "scalar"), _c(2, 2, "vector"), _c(2, 3, "vector"), _c(3, 2, "scalar"), _c(2, 2, "scalar", z=True, dz=True, mz=True),
        _c(2, 2, "vector", z=True, dz=True, mz=True), _c(2, 2, "matrix"), _c(1, 2, "matrix", z=True, dz=True, mz=True),
        _c(2, 2, "vector", "synthesis", npix=2), _c(1, 2, "vector", "synthesis", True, True, True, npix=2), _c(2, 1, "matrix", "synthesis", npix=1), _c(5, 4, "vector"), _c(4, 4, "scalar", z=True, dz=True, mz=True), _c(1, 6, "vector", dz=True, mz=True),
        _c(3, 3, "vector", "synthesis", npix=3), _c(2, 2, "vector", dz=True), _c(2, 3, "vector", z=True, dz=True),
        _c(2, 2, "vector", z=True, mz=True), _c(2, 2, "vector", mz=True), _c(1, 2, "scalar", "synthesis", mz=True, npix=2), _c(1, 2, "vector", "synthesis", True, False, True, npix=2),
        _c(1, 3, "dense", z=True, mz=True), _c(2, 2, "scalar", z=True), _c(1, 10, "vector"), _c(1, 12, "scalar", "synthesis", npix=2), _c(10, 2, "vector")],
        thorough=[_c(3, 3, "vector", z=True, dz=True, mz=True), _c(3, 3, "scalar"), _c(2, 2, "matrix", "synthesis", npix=2),
                  _c(2, 3, "matrix"), _c(2, 2, "matrix", z=True, dz=True, mz=True)]),
}
