"""The Laplace prior and its proximal map belong together."""
BOUNDS = ("1-3 parameters and coefficients with every side of every threshold, up to 12 with one chosen side each, real and complex; transforms "
          "arbitrary functions (formula) or an arbitrary rotation (exact proximal map); thresholds scalar or per coefficient; all values symbolic")


def soft1(h, x, T):
    np = h.np
    a = np.abs(x)
    return np.where(a <= T, 0 * x, x * (a - T) / np.where(a > 0, a, 1 + 0 * a))


def synthesis(h):
    c = h.cfg
    n, z = c["n"], c["complex"]
    X = h.vec("X", n, cplx=z)
    T = h.vec("T", n, nonneg=True) if c["vector"] else h.real("T", nonneg=True)
    calls = []
    spy = lambda v: calls.append(1) or v
    p = h.mod("prior").L1("synthesis", spy, spy, T)
    h.eq("prior is the L1 norm", p.prior(X.copy()), h.np.sum(h.np.abs(X)))
    r = p.proxf(X.copy())
    for i in range(n):
        t = T[i] if c["vector"] else T
        a = h.np.abs(X[i])
        if c.get("split"):      # every other entry small: one case of the many
            h.assume(a <= t if i % 2 else a > t)
        if h.is_true(a <= t):
            h.eq("prox: small entries vanish", r[i], 0 * X[i])
        else:
            h.eq("prox: soft threshold", r[i] * a, X[i] * (a - t))


def analysis(h):
    """The norm is that of the coefficients adj(X); the prox corrects X by the thresholded change of its coefficients."""
    c = h.cfg
    n, m, z = c["n"], c["m"], c["complex"]
    fwd, adj = h.oracle("fwd", n, cplx=z), h.oracle("adj", m, cplx=z)
    X = h.vec("X", n, cplx=z)
    T = h.vec("T", m, nonneg=True) if c["vector"] else h.real("T", nonneg=True)
    p = h.mod("prior").L1("analysis", fwd, adj, T)
    w = adj.lookup(X)
    if c.get("split"):
        for i in range(m):
            h.assume(h.np.abs(w[i]) <= (T[i] if c["vector"] else T) if c["split"] == "small" or i % 2 else h.np.abs(w[i]) > (T[i] if c["vector"] else T))
    h.eq("prior is the L1 norm of the coefficients", p.prior(X.copy()), h.np.sum(h.np.abs(w)))
    s = h.mod("utils").soft(w.copy(), T)
    h.eq("prox", p.proxf(X.copy()), X + fwd.lookup(s - w))


def rotation(h):
    """With an orthogonal transform both settings describe the same prior in rotated coordinates."""
    c = h.cfg
    np = h.np
    co, si = h.real("c", -1, 1), h.real("s", -1, 1)
    h.assume(co * co + si * si == 1) if h.mode == "sym" else h.assume(abs(co * co + si * si - 1) < 1e-6)
    R = lambda v: h.seq([co * v[0] - si * v[1], si * v[0] + co * v[1]])
    Rt = lambda v: h.seq([co * v[0] + si * v[1], -si * v[0] + co * v[1]])
    P = h.mod("prior").L1
    T = h.real("T", nonneg=True)
    X = h.vec("X", 2)
    an, sy = P("analysis", R, Rt, T), P("synthesis", None, None, T)
    h.eq("same norm", an.prior(X.copy()), sy.prior(Rt(X)))
    h.eq("same proximal map", an.proxf(X.copy()), R(sy.proxf(Rt(X))), scale=100.0)


def refused(h):
    h.raises("unknown setting", Exception, h.mod("prior").L1, h.cfg["setting"], None, None, 1.0)


HISTORY = True
HARNESSES = {
    "synthesis": dict(fn=synthesis, quick=[dict(n=n, complex=z, vector=v) for n in (1, 2, 3) for z in (False, True) for v in (False, True)] +
                      [dict(n=n, complex=z, vector=v, split=True) for n in (6, 12) for z in (False, True) for v in (False, True)]),
    "analysis": dict(fn=analysis, quick=[dict(n=n, m=m, complex=z, vector=v) for n, m in ((1, 1), (2, 3), (3, 2)) for z in (False, True) for v in (False, True)] +
                     [dict(n=n, m=m, complex=z, vector=v, split=s) for n, m, s in ((6, 3, True), (3, 8, True), (7, 12, "small")) for z in (False, True) for v in (False, True)]),
    "rotation": dict(fn=rotation, quick=[{}]),
    "refused": dict(fn=refused, quick=[dict(setting=s) for s in ("", "Synthesis", "both")]),
}
