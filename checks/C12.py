"""The weighting of the data is the inverse of the noise covariance given by the user."""
BOUNDS = ("1-20 data points (scalar, vector), arbitrary covariance matrices up to 3x3, scaled fixed ones up to 12x12, badly scaled and Hermitian ones "
          "up to 4x4; real, complex and integer data; noise levels any positive reals or integers")


def _op(h, data, sig):
    return h.mod("forward").ForwardOperator(data, sig, "analysis")


def inverse(h):
    c = h.cfg
    np, nd = h.np, c["nd"]
    data = h.vec("d", nd, cplx=c["dcomplex"]) if not c.get("dint") else h.const([(3 * i) % 7 - 2 for i in range(nd)], dtype=int)
    k = c["kind"]
    if k == "scalar":
        s = h.real("s", pos=True)
        cov = np.diag(h.seq([s * s] * nd))
    elif k == "int":
        s = h.int("s", 1, c["max"])
        cov = np.diag(h.seq([1.0 * s * s] * nd))
    elif k == "vector":
        s = h.vec("s", nd, pos=True)
        cov = np.diag(s * s)
    elif k == "numeric":
        import numpy as rnp
        r = rnp.random.RandomState(nd)
        m = r.randint(-8, 9, size=(nd, nd)) / 8.0
        m = m @ m.T + rnp.eye(nd) / 2
        s = (h.real("s", 0.01, 8) if nd <= 4 else 0.75) * h.const(m)
        cov = s.copy()
    elif k == "scales":     # very different and strongly correlated data
        m = [[0.0] * nd for _ in range(nd)]
        for i in range(nd):
            m[i][i] = 4.0 ** (-5 * i + 6)
            if i:
                m[i][i - 1] = m[i][i] / 2
        m = [[sum(m[i][q] * m[j][q] for q in range(nd)) for j in range(nd)] for i in range(nd)]
        s = h.const(m)
        cov = s.copy()
    elif k == "hermitian":      # correlations with phases
        L = [[1.0 + 0.25 * i if i == j else (0.5 + 0.25j * (i + 1) if (i + j) % 2 else -0.25 + 0.5j) if i > j else 0.0 for j in range(nd)] for i in range(nd)]
        s = h.real("s", 0.01, 8) * h.const([[sum(L[i][q] * complex(L[j][q]).conjugate() for q in range(nd)) for j in range(nd)] for i in range(nd)])
        cov = s.copy()
    elif k == "ints":
        s = h.seq([h.int(f"s{i}", 1, c["max"]) for i in range(nd)])
        cov = np.diag(h.seq([1.0 * v * v for v in s]))
    else:
        Lm = np.zeros((nd, nd))
        for i in range(nd):
            for j in range(i):
                Lm[i, j] = h.real(f"c{i}{j}")
            Lm[i, i] = h.real(f"c{i}{i}", pos=True)
        cov = np.dot(Lm, Lm.T)
        s = cov.copy()
    op = _op(h, data.copy(), s)
    W = h.dense(op.invcov)
    h.true("one row and column per datum", W.shape == (nd, nd))
    if k == "scales":
        d = h.const([4.0 ** (-5 * i + 6) for i in range(nd)])
        h.eq("weighting times covariance is the identity", np.dot(W, cov) * d[:, None] / d[None, :], np.eye(nd))
    else:
        h.eq("weighting times covariance is the identity", np.dot(W, cov), np.eye(nd))
    v = h.vec("v", nd, cplx=c["dcomplex"])
    h.eq("can be applied to a vector of residuals", op.invcov @ v, np.dot(W, v))


def refused(h):
    c = h.cfg
    data = h.vec("d", c["nd"])
    sh = tuple(c["shape"])
    h.raises("noise description of the wrong shape", (TypeError, ValueError), _op, h, data, h.array("s", sh, pos=True))


HISTORY = True
HARNESSES = {
    "inverse": dict(fn=inverse, quick=[dict(kind=k, nd=n, dcomplex=z, max=50) for k in ("scalar", "int", "vector") for n in (1, 2, 4) for z in (False, True)] +
                    [dict(kind="matrix", nd=n, dcomplex=z) for n, z in ((1, False), (2, False), (2, True), (3, False))] +
                    [dict(kind="numeric", nd=n, dcomplex=z) for n, z in ((2, False), (4, False), (7, True), (12, False))] +
                    [dict(kind=k, nd=2, dcomplex=False, dint=True, max=5) for k in ("scalar", "vector", "numeric", "int", "ints")] +
                    [dict(kind="hermitian", nd=n, dcomplex=True) for n in (2, 3, 4)] +
                    [dict(kind="scales", nd=n, dcomplex=False) for n in (2, 3, 4)] +
                    [dict(kind=k, nd=n, dcomplex=z, max=5) for k, n, z in (("vector", 9, True), ("scalar", 20, False), ("ints", 1, False), ("ints", 3, True))],
                    thorough=[dict(kind="matrix", nd=3, dcomplex=True), dict(kind="vector", nd=8, dcomplex=True), dict(kind="scalar", nd=8, dcomplex=True)]),
    "refused": dict(fn=refused, quick=[dict(nd=n, shape=s) for n, s in ((2, [3]), (2, [1]), (3, [2, 3]), (2, [2, 1]), (3, [1, 3]), (2, [2, 2, 2]), (2, [2, 1, 1]))]),
}
