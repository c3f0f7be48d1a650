"""Hard thresholding and signal-to-noise ratio."""
import math

BOUNDS = "vectors of 1-5 entries (quick) / 7 (thorough) in chosen orders of magnitude, every value and every kept fraction in [0, 1] symbolic; complex vectors of 2"


def hard(h):
    c = h.cfg
    perm = c["perm"]
    n = len(perm)
    mag = [h.real("m0", 0.01, 8)]
    for k in range(1, n):
        mag.append(mag[-1] + h.real(f"m{k}", 0.01, 8))
    X = h.seq([(-1 if i % 2 else 1) * mag[p] for i, p in enumerate(perm)], float)
    if c.get("T") == "default":
        T, args = 0.1, []
    else:
        T = h.real("T", 0, 1)
        args = [T]
    keep = None
    for k in range(n + 1):
        # away from the jumps, where the rounding of T * n decides
        if keep is None and h.is_true(T * n < k + 1):
            keep = k
            h.assume(T * n >= k + 1e-9) if k else None
            h.assume(T * n <= k + 1 - 1e-9)
    if keep is None:
        keep = n
    r = h.mod("utils").hard(X.copy(), *args)
    h.true("same length", r.shape == (n,))
    for i, p in enumerate(perm):
        h.eq("largest entries kept unchanged, others zero", r[i], X[i] if p >= n - keep else 0 * X[i])


def hard_complex(h):
    X = h.vec("X", 2, cplx=True)
    np = h.np
    a, b = np.abs(X[0]), np.abs(X[1])
    r = h.mod("utils").hard(X.copy(), h.cfg["T"])
    if h.is_true(a > b + 0.001):
        want = (X[0], 0 * X[1])
    elif h.is_true(b > a + 0.001):
        want = (0 * X[0], X[1])
    else:
        return
    h.eq("largest kept", r[0], want[0])
    h.eq("largest kept ", r[1], want[1])


def snr(h):
    c = h.cfg
    np = h.np
    u = h.mod("utils")
    s, m = h.vec("s", c["n"], cplx=c["complex"]), h.vec("m", c["k"], cplx=c["complex"])
    h.assume(np.abs(s[0]) >= 0.1)
    h.assume(np.abs(m[0]) >= 0.1)
    if "shape" in c:
        s, m = s.reshape(c["shape"]), m.reshape(c["shape"])
    ns = np.sqrt(np.sum(np.real(s) ** 2 + np.imag(s) ** 2))
    nm = np.sqrt(np.sum(np.real(m) ** 2 + np.imag(m) ** 2))
    h.eq("norm", u.norm(s.copy()), ns)
    h.eq("decibels of the ratio of norms", u.snr(s, m), 20 * np.log10(ns / nm), scale=10.0)


_P = [dict(perm=p) for p in ([0], [0, 1], [1, 0], [2, 0, 1], [1, 3, 0, 2], [4, 1, 3, 0, 2], [6, 1, 4, 0, 2, 5, 3], [7, 6, 5, 4, 3, 2, 1, 0])]
HISTORY = True
HARNESSES = {
    "hard": dict(fn=hard, quick=_P + [dict(perm=[1, 0, 2], T="default"), dict(perm=[3, 7, 0, 11, 1, 2, 6, 4, 9, 5, 8, 10], T="default")], thorough=[dict(perm=[6, 1, 4, 0, 2, 5, 3])]),
    "hard_complex": dict(fn=hard_complex, quick=[dict(T=0.5), dict(T=0.75)]),
    "snr": dict(fn=snr, quick=[dict(n=n, k=k, complex=z) for n, k in ((1, 1), (2, 2), (3, 2)) for z in (False, True)] + [dict(n=6, k=6, shape=(2, 3), complex=z) for z in (False, True)]),
}
