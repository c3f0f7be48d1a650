from .common import Marathon, Setup, Script, abs2, check_noise, script_check_saved, script_mean, scripted

BOUNDS = ("dimension 1-3, 9 and 17, single steps up to 33 (quick), also 4-6 (thorough), 1-3 consecutive iterations with every operator, start point, step size, smoothing "
          "parameter and draw arbitrary; real, complex and mixed kinds of state, gradient and prox; long runs (up to 120 iterations, burn-in and "
          "thinning included) with tabulated operators and symbolic draws and parameters; one run of 1200 iterations (burn-in 1000, thinning 100) with "
          "fixed numbers but the last steps' draws")


def step(h):
    """Consecutive states of a MYULA chain."""
    c = h.cfg
    n, k, cplx = c["n"], c["k"], c["complex"]
    g = c.get("gcomplex", cplx)
    st = Setup(h, "MYULA", n=n, nd=2, cplx=cplx, gcplx=g, dcplx=g and not cplx, nsamples=k)
    x0 = h.vec("x", n, cplx=c.get("xcomplex", cplx))
    st.s.run(x0.copy())
    prev, res = x0, []
    if g != cplx:
        h.true("one model evaluation per iteration", len(st.fwd.points) == k + 1)
    for j in range(k):
        X = st.s.chain[j] if g == cplx else st.fwd.points[j + 1]
        res.append(X - st.drift(prev))
        prev = X
    check_noise(h, "langevin step", res, [2 * st.delta] * k, cplx)


def chain_step(h):
    """chain_step in isolation, for any current point, prox and gradient, for both samplers."""
    c = h.cfg
    n, cplx = c["n"], c["complex"]
    st = Setup(h, c["cls"], n=n, cplx=cplx)
    zs = [z == "1" for z in c["kinds"]] if "kinds" in c else [cplx] * 3
    X, P, G = (h.vec(v, n, cplx=z) for v, z in zip(("X", "P", "G"), zs))
    out = st.s.chain_step(X.copy(), P.copy(), G.copy())
    mean = X - (st.delta / st.lmda) * (X - P) - st.delta * G
    check_noise(h, "chain_step", [out - mean], [2 * st.delta], cplx)


def pxmala_proposal(h):
    """Every proposal PxMALA makes (accepted ones are seen in the chain)."""
    c = h.cfg
    n, k, cplx = c["n"], c["k"], c["complex"]
    st = Setup(h, "PxMALA", n=n, nd=1, cplx=cplx, nsamples=k, tune=c["tune"])
    x0 = h.vec("x", n, cplx=cplx)
    st.s.run(x0.copy())
    acc = list(st.s.acceptance_trace)
    h.true("one decision per iteration", len(acc) == k)
    deltas = list(st.s.deltas_trace)
    h.assume(acc[-1] == 1)
    prev = x0
    for j in range(k - 1):
        prev = st.s.chain[j]
    d = deltas[k - 1] if c["tune"] else st.delta
    r = st.s.chain[k - 1] - st.drift(prev, d)
    if h.mode == "conc":
        m = len(h.draws("normal")) // k
        from .common import abs2
        h.eq("proposal: covariance", abs2(h, r), 2 * d * sum(w * w for w in h.draws("normal")[m * (k - 1):]))
    else:
        check_noise(h, "proposal", [r], [2 * d], cplx)


def long(h):
    """Long MYULA chains with burn-in, thinning and progress output: every step, seen through the points at which the
    model is evaluated."""
    c = h.cfg
    z, nb, ng, ns = c["complex"], c["nburn"], c["ngap"], c["ns"]
    sc = Script(h, c["n"], 2, z, z)
    st = scripted(h, "MYULA", sc, mu=1.0, nsamples=ns, nburn=nb, ngap=ng, verbosity=c["verbosity"])
    x0 = h.vec("x", c["n"], cplx=z)
    st.s.run(x0.copy())
    total = nb + (ns - 1) * max(ng, 1) + 1
    h.true("one model evaluation per iteration", len(sc.points) == total + 1)
    h.eq("starts at the start point", sc.points[0], x0)
    check_noise(h, "langevin step", [sc.points[i + 1] - script_mean(st, i) for i in range(total)], [2 * st.delta] * total, z)
    script_check_saved(h, st, list(range(1, total + 1)), nb, ng, ns)


def marathon(h):
    """More than a thousand iterations: every step of a chain whose first draws are numbers, the last steps with symbolic draws."""
    c = h.cfg
    nb, ng, ns = c["nburn"], c["ngap"], c["ns"]
    total = nb + (ns - 1) * max(ng, 1) + 1
    sc = Marathon(h, 1, 2, upto=total - 4)
    st = scripted(h, "MYULA", sc, mu=1.0, nsamples=ns, nburn=nb, ngap=ng, verbosity=c["verbosity"], delta=0.125, lmda=0.5)
    x0 = h.vec("x", 1)
    st.s.run(x0.copy())
    h.true("one model evaluation per iteration", len(sc.points) == total + 1)
    res = [sc.points[i + 1] - script_mean(st, i) for i in range(total)]
    w = h.numbers()
    for r, v in zip(res[:total - 4], w):
        h.eq("langevin step: covariance", abs2(h, r), 2 * st.delta * v * v)
    if h.mode == "sym":
        check_noise(h, "langevin step", res[-4:], [2 * st.delta] * 4, False)
    script_check_saved(h, st, list(range(1, total + 1)), nb, ng, ns)


def again(h):
    """Two runs of one sampler, and a run of another one: all steps have noise of their own."""
    c = h.cfg
    z = c["complex"]
    res, st = [], None
    for r in range(3):
        if r != 1:
            st = Setup(h, "MYULA", n=2, nd=1, cplx=z, nsamples=2, name=f"m{r}")
        x0 = prev = h.vec(f"x{r}", 2, cplx=z)
        st.s.run(x0.copy())
        for j in range(2):
            res.append(st.s.chain[j] - st.drift(prev))
            prev = st.s.chain[j].copy()
        v = st.delta
        if r == 0:
            vs = []
        vs += [2 * v] * 2
    check_noise(h, "noise of separate runs", res, vs, z)


HARNESSES = {
    "long": dict(fn=long, quick=[dict(n=n, ns=s, nburn=b, ngap=g, verbosity=v, complex=z) for n, s, b, g, v, z in
                                 ((1, 40, 0, 1, 0, False), (2, 7, 11, 3, 4, True), (1, 5, 30, 0, 10, False), (2, 4, 2, 13, 7, False),
                                  (1, 105, 0, 1, 100, False), (17, 2, 1, 1, 1, True), (1, 1, 120, 5, 3, False))],
                 thorough=[dict(n=1, ns=210, nburn=40, ngap=1, verbosity=100, complex=False)]),
    "marathon": dict(fn=marathon, quick=[dict(ns=3, nburn=1000, ngap=100, verbosity=100)], thorough=[dict(ns=1200, nburn=20, ngap=1, verbosity=0)]),
    "again": dict(fn=again, quick=[dict(complex=False), dict(complex=True)]),
    "step": dict(fn=step, quick=[dict(n=n, k=k, complex=z) for n, k in ((1, 1), (2, 2), (3, 2), (1, 3), (9, 1), (17, 1)) for z in (False, True)]
                 + [dict(n=2, k=2, complex=True, xcomplex=False), dict(n=1, k=2, complex=True, xcomplex=False, gcomplex=False),
                    dict(n=2, k=2, complex=False, gcomplex=True)],
                 thorough=[dict(n=n, k=k, complex=z) for n, k in ((4, 3), (5, 1), (2, 5)) for z in (False, True)]),
    "chain_step": dict(fn=chain_step, quick=[dict(cls=s, n=n, complex=z) for s in ("MYULA", "PxMALA") for n in (1, 2, 3, 10, 33)
                                             for z in (False, True)]
                       + [dict(cls=s, n=2, complex=z, kinds=k) for s in ("MYULA", "PxMALA") for z in (False, True)
                          for k in (("001", "110", "111") if not z else ("000", "001", "100"))],
                       thorough=[dict(cls=s, n=6, complex=z) for s in ("MYULA", "PxMALA") for z in (False, True)]),
    "pxmala_proposal": dict(fn=pxmala_proposal, quick=[dict(n=1, k=2, complex=False, tune=False), dict(n=2, k=2, complex=True, tune=False),
                                                       dict(n=1, k=2, complex=False, tune=True), dict(n=9, k=1, complex=True, tune=False)],
                            thorough=[dict(n=1, k=3, complex=False, tune=False), dict(n=2, k=3, complex=True, tune=False)]),
}
