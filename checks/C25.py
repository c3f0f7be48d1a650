"""Highest-posterior credible region."""
from .C24 import LONGP, column, level, quantile

BOUNDS = "2-6 samples (quick) / 8 (thorough) in chosen orders, every value and ties symbolic; every confidence level in (0, 1) and the default"


def build(h):
    u = h.mod("uncertainty")
    s, vals = column(h, "l", h.cfg["perm"])
    args, a = level(h)
    lp = h.seq(vals, float)
    keep = lp.copy()
    t = u.credible_region_threshold(lp, *args)
    h.eq("samples left alone", lp, keep)
    return u, s, vals, a, t


def threshold(h):
    u, s, vals, a, t = build(h)
    h.eq("threshold is the quantile of the log posteriors", t, quantile(h, s, a))


def members(h):
    """The region holds the samples of highest posterior, a fraction 1 - alpha of them."""
    u, s, vals, a, t = build(h)
    n = len(s)
    for k in range(1, n):
        h.assume(s[k] - s[k - 1] >= 0.01)
    ins = [bool(u.in_credible_region(v, t)) for v in s]
    for k in range(1, n):
        h.true("higher posterior, more inside", ins[k] or not ins[k - 1])
    m = sum(ins)
    h.true("at least the level", m >= (1 - a) * n - 1)
    h.true("no more than the level", m <= (1 - a) * n + 1)
    h.true("the best sample is inside", ins[-1])


def test(h):
    """Membership of any log posterior against any threshold, also between distinct calls."""
    u = h.mod("uncertainty")
    x, y, t = h.real("x"), h.real("y"), h.real("t")
    a = u.in_credible_region(x, t)
    h.true("membership is reaching the threshold", bool(a) == h.is_true(x >= t))
    if h.is_true(y >= x) and a:
        h.true("monotone", bool(u.in_credible_region(y, t)))


_D = dict(alpha="default")
_P = [dict(perm=p, **a) for a in ({}, _D) for p in ([0, 1], [1, 0], [2, 0, 1], [3, 1, 0, 2], [4, 2, 0, 1, 3], [0, 5, 1, 4, 2, 3])]
_P += [dict(perm=LONGP[:n], alpha=a) for n, a in ((20, 0.05), (41, 0.05), (30, 0.5), (25, 0.99), (17, 0.01))] + [dict(perm=LONGP[:33], **_D)]
_T = [dict(perm=[7, 2, 5, 0, 1, 6, 3, 4]), dict(perm=[7, 2, 5, 0, 1, 6, 3, 4], **_D)]
HISTORY = True
HARNESSES = {
    "threshold": dict(fn=threshold, quick=_P, thorough=_T),
    "members": dict(fn=members, quick=_P, thorough=_T),
    "test": dict(fn=test, quick=[{}]),
}
