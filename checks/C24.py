"""Credible interval ranges."""
BOUNDS = ("chains of 2-5 samples (quick) / 8 (thorough), 1-3 parameters; every ordering for up to 3 samples, chosen permutations above, ties included; "
          "chains of 21 to 600 samples in a chosen order; every confidence level in (0, 1) and the default; wavelet maps for bandlimits 2-4 with every "
          "chain of 2-3 samples")


def quantile(h, s, q):
    """Linearly interpolated quantile of sorted values."""
    n = len(s)
    pos = q * (n - 1)
    for j in range(n - 2):
        if h.is_true(pos <= j + 1):
            return s[j] + (pos - j) * (s[j + 1] - s[j])
    return s[n - 2] + (pos - (n - 2)) * (s[n - 1] - s[n - 2])


def level(h):
    """(argument list, level meant)"""
    if h.cfg.get("alpha") == "default":
        return [], 0.05
    if isinstance(h.cfg.get("alpha"), float):
        return [h.cfg["alpha"]], h.cfg["alpha"]
    a = h.real("alpha", 0.001, 0.999)
    return [a], a


def column(h, name, perm):
    """A column of samples whose order is the given permutation; ties possible."""
    s, n = [h.real(f"{name}0")], len(perm)
    # in very long columns most distances are fixed; those around the default quantiles are not
    free = lambda k: n <= 131 or k % 100 == 0 or any(abs(k - q * (n - 1)) < 1.5 for q in (0.025, 0.975))
    for k in range(1, n):
        s.append(s[-1] + (h.real(f"{name}{k}", 0, 8) if free(k) else (1 + k % 3) / 8))
    return s, [s[p] for p in perm]


def interval(h):
    c = h.cfg
    u = h.mod("uncertainty")
    srt, cols = [], []
    for j, perm in enumerate(c["perms"]):
        s, col = column(h, f"x{j}_", perm)
        srt.append(s)
        cols.append(col)
    n, p = len(cols[0]), len(cols)
    args, a = level(h)
    chain = h.seq([cols[j][i] for i in range(n) for j in range(p)], float).reshape((n, p))
    keep = chain.copy()
    r = u.credible_interval_range(chain, *args)
    h.true("one range per parameter", r.shape == (p,))
    for j in range(p):
        want = quantile(h, srt[j], 1 - a / 2) - quantile(h, srt[j], a / 2)
        h.eq("upper minus lower quantile", r[j], want)
    h.eq("chain left alone", chain, keep)


def anyorder(h):
    """Arbitrary values: the solver picks the order of the samples."""
    n = h.cfg["n"]
    u = h.mod("uncertainty")
    chain = h.mat("c", n, 1)
    args, a = level(h)
    r = u.credible_interval_range(chain.copy(), *args)
    v = [chain[i, 0] for i in range(n)]
    for i in range(n):
        for j in range(n - 1 - i):
            if h.is_true(v[j] > v[j + 1]):
                v[j], v[j + 1] = v[j + 1], v[j]
    h.eq("upper minus lower quantile", r[0], quantile(h, v, 1 - a / 2) - quantile(h, v, a / 2))


def wavelets(h):
    """One map per scale, each from its own coefficients."""
    import math
    c = h.cfg
    L, B, J, n = c["L"], c["B"], c["J"], c["n"]
    t = h.mod("transforms").SphericalWaveletTransform(L, B, J)
    p = t.ncoefs
    base, inc = h.vec("b", p), h.mat("i", n - 1, p, lo=0, hi=8)
    rows, cur = [base], base
    for k in range(n - 1):
        cur = cur + inc[k]
        rows.append(cur)
    # the order of the samples differs between coefficients
    chain = h.seq([rows[(k + j) % n][j] for k in range(n) for j in range(p)], float).reshape((n, p))
    args, a = level(h)
    maps = h.mod("uncertainty").wavelet_credible_interval_range(chain, L, B, J, *args)
    bls = [min(math.ceil(B ** J), L)]
    while sum(b * (2 * b - 1) for b in bls) < p:
        bls.append(min(math.ceil(B ** (J + len(bls))), L))
    h.true("one map per scale", len(maps) == len(bls) and sum(b * (2 * b - 1) for b in bls) == p)
    j = 0
    for m, bl in zip(maps, bls):
        h.true("map size", m.shape == (bl, 2 * bl - 1))
        flat = m.reshape((bl * (2 * bl - 1),))
        for k in range(bl * (2 * bl - 1)):
            s = [r[j] for r in rows]
            h.eq("range of this coefficient", flat[k], quantile(h, s, 1 - a / 2) - quantile(h, s, a / 2))
            j += 1


_D = dict(alpha="default")
def _rank(p):
    return [sorted(p).index(v) for v in p]


class _Perms:
    def __getitem__(self, s):
        if s.stop > 131:
            return _rank([(389 * i + 5) % 1009 for i in range(1009)][s])
        return _rank([(17 * i + 5) % 41 for i in range(41)][s] if s.stop <= 41 else [(57 * i + 5) % 131 for i in range(131)][s])


LONGP = _Perms()
HISTORY = True
HARNESSES = {
    "interval": dict(fn=interval, quick=[dict(perms=p, **a) for a in ({}, _D) for p in (
        [[0, 1]], [[1, 0], [0, 1]], [[2, 0, 1], [0, 1, 2]], [[3, 1, 0, 2]], [[2, 0, 3, 1], [0, 1, 2, 3]], [[4, 2, 0, 1, 3]], [[5, 0, 4, 1, 3, 2], [0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0]], [[7, 2, 5, 0, 1, 6, 3, 4]])] +
        [dict(perms=[LONGP[:n]] * k, **_D) for n, k in ((21, 1), (40, 2), (70, 1), (130, 1), (260, 1), (600, 1))] + [dict(perms=[LONGP[:n]], alpha=a) for n, a in ((13, 0.5), (30, 0.1), (21, 0.9), (16, 0.32))],
        thorough=[dict(perms=[[7, 2, 5, 0, 1, 6, 3, 4]]), dict(perms=[[5, 0, 4, 1, 3, 2], [0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0]])]),
    "anyorder": dict(fn=anyorder, quick=[dict(n=n, **a) for n in (2, 3) for a in ({}, _D)], thorough=[dict(n=4), dict(n=4, **_D), dict(n=5, **_D)]),
    "wavelets": dict(fn=wavelets, quick=[dict(L=3, B=2, J=1, n=2), dict(L=2, B=2, J=0, n=2), dict(L=3, B=3, J=0, n=3, **_D), dict(L=4, B=2, J=1, n=2, **_D),
                                         dict(L=4, B=3, J=1, n=2), dict(L=3, B=2, J=2, n=2), dict(L=5, B=2, J=1, n=2, **_D), dict(L=4, B=1.5, J=2, n=2, **_D), dict(L=4, B=2, J=1, n=4, alpha=0.3), dict(L=6, B=2, J=0, n=2, alpha=0.1)],
                     thorough=[dict(L=5, B=2, J=1, n=2), dict(L=4, B=1.5, J=2, n=2), dict(L=4, B=2, J=1, n=3)]),
}
