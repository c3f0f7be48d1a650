"""PxMALA's accept/reject decision is Metropolis-Hastings for its own proposal."""
from .common import Setup, abs2, check_noise, count_points, script_check_saved, script_pxmala

BOUNDS = ("1-3 consecutive iterations, every accept/reject pattern; dimension 1-3, 9 (two iterations) and 16 (one), real and complex; real and complex data; tuning on and off; "
          "everything else symbolic; long runs (50-120 iterations, tabulated operators with flat gradient, five accept/reject patterns) with symbolic "
          "draws; one of 1200 iterations with fixed numbers")


def logq(h, st, x, y, delta):
    """log density of proposing y from x, up to a constant depending on delta only."""
    return -abs2(h, y - st.drift(x, delta)) / (4 * delta)


def uniform_of(h, k, m, nu):
    """The uniform draw of each iteration, None where it made none (an acceptance that is certain needs no draw)."""
    if nu == k:
        return list(range(k))
    out, normals, seen = [None] * k, 0, 0
    for t in h.draw_tags():
        if t == "normal":
            normals += 1
        elif t == "uniform":
            j = normals // m - 1
            h.true("uniform draws follow the proposal they decide on", 0 <= j < k and out[j] is None)
            out[j] = seen
            seen += 1
    return out


def accept(h):
    c = h.cfg
    n, k, nb = c["n"], c["k"], c.get("nburn", 0)
    st = Setup(h, "PxMALA", n=n, nd=c["nd"], cplx=c["complex"], dcplx=c["dcomplex"], nsamples=k - nb, nburn=nb,
               tune=c["tune"], verbosity=c.get("verbosity", 0))
    x0 = h.vec("x", n, cplx=c["complex"])
    st.s.run(x0.copy())
    acc = list(st.s.acceptance_trace)
    u = h.draws("uniform")
    h.true("one decision and at most one uniform draw per iteration", len(acc) == k and len(u) <= k)
    which = uniform_of(h, k, n * (2 if c["complex"] else 1), len(u))
    count_points(h, st.fwd, 1 + k, "one proposal per iteration")
    props = st.fwd.points[1:]
    deltas = list(st.s.deltas_trace)
    x, steps, ds = x0, [], []
    for j in range(k):
        d = deltas[j] if c["tune"] else st.delta
        y = props[j]
        steps.append(y - st.drift(x, d))
        ds.append(2 * d)
        loga = st.logpost(y) + logq(h, st, y, x, d) - st.logpost(x) - logq(h, st, x, y, d)
        a = bool(acc[j] == 1)
        h.true("decision is recorded as 0 or 1", a or bool(acc[j] == 0))
        if which[j] is None:
            h.true("only certain decisions are made without a draw", (loga >= 0) if a else False)
        else:
            lu = h.np.log(u[which[j]])
            h.true("Metropolis-Hastings acceptance", (lu <= loga) if a else (lu >= loga))
        if a:
            x = y
        if j >= nb:
            h.eq("state after the decision", st.s.chain[j - nb], x)
    check_noise(h, "q is the law of the proposal made", steps, ds, c["complex"])


def density(h):
    """The transition density itself, up to an additive constant that cancels: differences of
    log q(.|X1) between any two end points."""
    c = h.cfg
    n, z = c["n"], c["complex"]
    st = Setup(h, "PxMALA", n=n, nd=1, cplx=z, tune=True)
    if not hasattr(st.s, "calc_logtransition"):
        return
    X1, X2, X3, P, G = (h.vec(v, n, cplx=z) for v in ("X1", "X2", "X3", "P", "G"))
    mean = X1 - (st.delta / st.lmda) * (X1 - P) - st.delta * G
    f = lambda y: st.s.calc_logtransition(X1.copy(), y.copy(), P.copy(), G.copy())
    h.eq("transition density", f(X2) - f(X3), (abs2(h, X3 - mean) - abs2(h, X2 - mean)) / (4 * st.delta))


def long(h):
    """Long runs on a tabulated model with known acceptance probabilities (0.67 to 0.74 around a uniform draw of 0.7, and clear cases)."""
    c = h.cfg
    st, x0, total, flags, visited = script_pxmala(h, c, c["tune"])
    acc = list(st.s.acceptance_trace)
    h.true("one decision per iteration", len(acc) == total)
    for a, f in zip(acc, flags):
        h.true("Metropolis-Hastings acceptance", bool(a == 1) == (f == 1))
    script_check_saved(h, st, visited, c["nburn"], c["ngap"], c["ns"])


def _c(k, n=1, nd=1, z=False, dz=False, tune=False, **o):
    return dict(k=k, n=n, nd=nd, complex=z, dcomplex=dz, tune=tune, **o)


HARNESSES = {
    "long": dict(fn=long, quick=[dict(ns=s, nburn=b, ngap=g, verbosity=v, pattern=p, tune=t, complex=z, n=n) for s, b, g, v, p, t, z, n in
                                 ((50, 0, 1, 0, "mixed", False, False, 1), (20, 10, 2, 10, "runs", False, True, 2), (30, 0, 1, 1, "alternate", True, False, 1),
                                  (5, 100, 3, 100, "mixed", False, False, 1), (40, 0, 1, 0, "reject", False, False, 3))] +
                 [dict(ns=3, nburn=1000, ngap=100, verbosity=100, pattern="mixed", tune=False, complex=False, n=1, delta=0.125, lmda=0.5, marathon=True)]),
    "accept": dict(fn=accept, quick=[_c(1, 1), _c(1, 2, 2), _c(1, 2, 2, True, True), _c(1, 3, 2, False, True), _c(2, 1), _c(2, 2, 1, True),
                                     _c(2, 1, 1, tune=True), _c(3, 1), _c(2, 1, nburn=1, verbosity=1), _c(3, 1, nburn=2),
                                     _c(2, 1, 1, tune=True, nburn=1), _c(1, 2, 1, True, tune=True),
                                     _c(1, 8, 1, True), _c(2, 9, 1), _c(1, 16, 1, True)],
                   thorough=[_c(3, 2, 2), _c(3, 2, 2, True, True), _c(3, 1, tune=True), _c(4, 1), _c(1, 4, 4, True, True)]),
    "density": dict(fn=density, quick=[dict(n=n, complex=z) for n in (1, 2, 3, 8, 16) for z in (False, True)],
                    thorough=[dict(n=40, complex=z) for z in (False, True)]),
}
