"""Identity and path-integral measurements."""
from .common import inner

BOUNDS = ("sizes up to 9 (quick) / 40 (thorough), rectangular included; dense and sparse patterns with empty rows and columns, csr/csc/coo; real, "
          "complex and integer matrices, real and complex vectors, all stored entries symbolic")


def identity(h):
    c = h.cfg
    n, z = c["n"], c["complex"]
    m = h.mod("measurements").Identity(n, n)
    X, Y = h.vec("X", n, cplx=z), h.vec("Y", n, cplx=z)
    h.eq("what goes in comes out", m.forward(X.copy()), X)
    h.eq("adjoint too", m.adjoint(Y.copy()), Y)


def rect(h):
    """More pixels than data (or fewer): the first ones are observed, the adjoint matches."""
    c = h.cfg
    nd, n, z = c["nd"], c["n"], c["complex"]
    m = h.mod("measurements").Identity(nd, n)
    X, Y = h.vec("X", n, cplx=z), h.vec("Y", nd, cplx=z)
    f, a = m.forward(X.copy()), m.adjoint(Y.copy())
    h.true("sizes", f.shape == (nd,) and a.shape == (n,))
    k = min(nd, n)
    h.eq("leading pixels are observed", f[:k], X[:k])
    h.eq("nothing else is", f[k:], 0 * Y[k:])
    h.eq("adjoint identity", inner(h, f, Y), inner(h, X, a))


def path(h):
    c = h.cfg
    nd, n, z, mz = c["nd"], c["n"], c["complex"], c["mcomplex"]
    A = h.mat("A", nd, n, cplx=mz)
    if c.get("keep"):
        # a sparse matrix: only these entries are stored, some rows or columns may be empty
        for i in range(nd):
            for j in range(n):
                if [i, j] not in c["keep"]:
                    A[i, j] = 0
    if c.get("whole"):
        A = h.const([[(3 * i + 5 * j) % 4 - 1 for j in range(n)] for i in range(nd)], dtype=int)
    m = h.mod("measurements").PathIntegral(h.sparse(A, c.get("fmt", "csr")))
    X, Y = h.vec("X", n, cplx=z), h.vec("Y", nd, cplx=z)
    f, a = m.forward(X.copy()), m.adjoint(Y.copy())
    h.true("sizes", f.shape == (nd,) and a.shape == (n,) and m.ndata == nd and m.npix == n)
    h.eq("forward is the matrix product", f, h.np.dot(A, X))
    h.eq("adjoint identity", inner(h, f, Y), inner(h, X, a))
    h.eq("adjoint is the conjugate transpose", a, h.np.dot(h.np.conj(A).T, Y))
    h.eq("operator unchanged by use", m.forward(X.copy()), f)


def refused(h):
    c = h.cfg
    nd, n = c["nd"], c["n"]
    ms = h.mod("measurements")
    m = ms.Identity(nd, n) if c["op"] == "identity" else ms.PathIntegral(h.sparse(h.mat("A", nd, n)))
    for k in range(1, 2 * max(n, nd) + 2):
        if k != n:
            h.raises(f"image of length {k} instead of {n}", Exception, m.forward, h.vec(f"x{k}", k))
        if k != nd:
            h.raises(f"data of length {k} instead of {nd}", Exception, m.adjoint, h.vec(f"y{k}", k))


_D = ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4), (7, 5), (4, 9))
HISTORY = True
HARNESSES = {
    "identity": dict(fn=identity, quick=[dict(n=n, complex=z) for n in (1, 2, 4, 9, 17) for z in (False, True)], thorough=[dict(n=40, complex=True)]),
    "rect": dict(fn=rect, quick=[dict(nd=a, n=b, complex=z) for a, b in _D for z in (False, True)]),
    "path": dict(fn=path, quick=[dict(nd=a, n=b, complex=z, mcomplex=y) for a, b in _D for z, y in ((False, False), (True, False), (True, True))] +
                 [dict(nd=2, n=3, complex=True, mcomplex=True, fmt=f) for f in ("csc", "coo")] +
                 [dict(nd=4, n=3, complex=z, mcomplex=y, keep=k) for z, y in ((False, False), (True, True), (False, True)) for k in ([[0, 1]], [[1, 0], [3, 2]], [[0, 0], [0, 1], [0, 2], [2, 1]])] +
                 [dict(nd=2, n=12, complex=True, mcomplex=True, keep=[[0, 11], [1, 3]]), dict(nd=12, n=12, complex=True, mcomplex=True, keep=[[i, (5 * i) % 12] for i in range(12)]),
                  dict(nd=3, n=4, complex=False, mcomplex=False, whole=True), dict(nd=4, n=2, complex=True, mcomplex=False, whole=True), dict(nd=3, n=2, complex=False, mcomplex=True)],
                 thorough=[dict(nd=8, n=8, complex=True, mcomplex=True), dict(nd=8, n=3, complex=True, mcomplex=True)]),
    "refused": dict(fn=refused, quick=[dict(op=o, nd=a, n=b) for o in ("identity", "path") for a, b in ((2, 2), (2, 4), (3, 2))]),
}
