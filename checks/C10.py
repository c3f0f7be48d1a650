"""Callers' objects are left alone; samplers do not influence one another."""
from .common import Setup, Fwd, Prior

BOUNDS = ("dimension 2, 2-3 iterations, every accept/reject pattern, every tracking subset; each listed operation (operators, priors, transforms, "
          "thresholds, quadrature, uncertainty, saving, plots of traces) on symbolic real and complex inputs")


def run(h):
    """Running a sampler changes neither its inputs nor another sampler built from the same objects."""
    c = h.cfg
    cls, n, z = c["cls"], c["n"], c["complex"]
    kw = {"s": 2} if cls == "SKROCK" else {}
    track = ["logposterior", "L2", "prior", "chain", "predictions"]
    st = Setup(h, cls, n=n, nd=1, cplx=z, dcplx=z, tune=True if cls == "PxMALA" else None, nsamples=2, nburn=1 if cls == "MYULA" else 0,
               track=track, verbosity=1, **kw)
    args = [st.fwd, st.prior, st.params]
    other = getattr(st.mcmc, cls)(*args)
    x0 = h.vec("x", n, cplx=z)
    xc, dc = x0.copy(), st.fwd.data.copy()
    before = dict(vars(st.params))
    st.s.run(x0)
    h.eq("start point unchanged", x0, xc)
    h.eq("data unchanged", st.fwd.data, dc)
    h.true("list of tracked variables unchanged", track == ["logposterior", "L2", "prior", "chain", "predictions"])
    h.true("same parameters stored", sorted(vars(st.params)) == sorted(before))
    for k, v in before.items():
        if isinstance(v, (list, str, bool)):
            h.true("parameter object unchanged: " + k, getattr(st.params, k) == v)
        else:
            h.eq("parameter object unchanged: " + k, getattr(st.params, k), v)
    h.eq("other sampler keeps its step size", other.delta, before["delta"])
    h.eq("other sampler keeps its records", other.chain, 0 * other.chain)
    h.true("the recorded samples do not share memory with the start point",
           not (hasattr(h.np, "shares_memory") and h.mode == "conc" and h.np.shares_memory(st.s.chain, x0)))
    records = {k: getattr(st.s, k).copy() for k in ("chain", "logPi", "L2s", "priors", "preds")}
    books = {k: [1 * e for e in v] for k, v in vars(st.s).items() if isinstance(v, list) and k != "track"}
    h.rewind()
    other.run(xc.copy())
    for k, v in records.items():
        h.eq("the other sampler makes the run it would have made alone: " + k, getattr(other, k), v)
    x0[:] = 0 * x0
    xc[:] = 0 * xc
    for k, v in records.items():
        h.eq("records intact after another run and after the caller reuses the array: " + k, getattr(st.s, k), v)
    for k, v in books.items():
        now = getattr(st.s, k)
        h.true("record as long as before another run: " + k, len(now) == len(v))
        for a, b in zip(now, v):
            h.eq("records intact after another run: " + k, a, b)


def settings(h):
    """A sampler makes the same run whether or not another one with other settings is built, and has run, before it starts."""
    c = h.cfg
    cls, n, z = c["cls"], c["n"], c["complex"]
    m = h.mod("mcmc")
    fwd, prior = Fwd(h, n, 1, z, z), Prior(h, n, z)
    own = dict(lmda=h.real("lmda", pos=True), delta=h.real("delta", pos=True), mu=h.real("mu", pos=True), complex=z, nsamples=2, nburn=0, ngap=1, verbosity=0, s=2,
               track=["logposterior", "L2", "prior", "chain", "predictions"])
    new = dict(own, lmda=0.75, delta=0.0625, mu=3.0, nsamples=1, nburn=1, ngap=3, verbosity=1, s=c["s"], track=["chain", "prior"])
    kw, kv = ({"tune_delta": c["tune"]}, {"tune_delta": not c["tune"]}) if cls == "PxMALA" else ({}, {})
    make = lambda p, k: getattr(m, cls)(fwd, prior, m.PxMCMCParams(**p), **k)
    x0 = h.vec("x", n, cplx=z)
    a = make(own, kw)
    a.run(x0.copy())
    records = {k: getattr(a, k).copy() for k in ("chain", "logPi", "L2s", "priors", "preds")}
    books = {k: [1 * e for e in getattr(a, k)] for k in ("acceptance_trace", "deltas_trace") if hasattr(a, k)}
    b = make(own, kw)
    other = make(new, kv)
    if c["runs"]:
        other.run(x0.copy())
    h.rewind()
    b.run(x0.copy())
    for k, v in records.items():
        h.eq("same run next to a sampler with other settings: " + k, getattr(b, k), v)
    for k, v in books.items():
        now = list(getattr(b, k))
        h.true("same number of entries next to a sampler with other settings: " + k, len(now) == len(v))
        for p, q in zip(now, v):
            h.eq("same entries next to a sampler with other settings: " + k, p, q)


def lists(h):
    """Any list of tracked variables, and the operators and parameters handed to a sampler, are only read."""
    c = h.cfg
    cls, z = c["cls"], c["complex"]
    names = ["logposterior", "L2", "prior", "chain", "predictions"]
    track = [t for t in names if h.flag("track_" + t)]
    given = list(track)
    m = h.mod("mcmc")
    fwd, prior = Fwd(h, 1, 1, z, z), Prior(h, 1, z)
    keep = {id(o): (o, sorted(vars(o)), {k: v for k, v in vars(o).items() if k != "points"}) for o in (fwd, prior)}
    p = m.PxMCMCParams(lmda=h.real("lmda", pos=True), delta=h.real("delta", pos=True), nsamples=1, nburn=1, ngap=2, verbosity=1, complex=z, track=given)
    params = dict(vars(p))
    s = getattr(m, cls)(fwd, prior, p)
    s.run(h.vec("x", 1, cplx=z))
    h.true("the caller's list unchanged", given == track and list(p.track) == track)
    h.true("parameter object: same fields", sorted(vars(p)) == sorted(params))
    h.true("parameter object: same values", all(vars(p)[k] is v for k, v in params.items()))
    for o, ks, vs in keep.values():
        h.true("operator and prior objects get no new fields", sorted(vars(o)) == ks)
        h.true("operator and prior objects keep theirs", all(vars(o)[k] is v for k, v in vs.items()))


def tracklist(h):
    """The list of tracked variables, given or default, is only read."""
    c = h.cfg
    cls = c["cls"]
    m = h.mod("mcmc")
    default = list(m.PxMCMCParams().track)
    kw = {} if c["track"] is None else {"track": list(c["track"])}
    fwd, prior = Fwd(h, 1, 1), Prior(h, 1)
    p = m.PxMCMCParams(lmda=h.real("lmda", pos=True), delta=h.real("delta", pos=True), nsamples=1, nburn=0, ngap=1, verbosity=1, **kw)
    want = list(p.track)
    s = getattr(m, cls)(fwd, prior, p)
    s.run(h.vec("x", 1))
    h.true("list of tracked variables unchanged", list(p.track) == want)
    if "track" in kw:
        h.true("the caller's list unchanged", kw["track"] == list(c["track"]))
    h.true("defaults of later parameter objects unchanged", list(m.PxMCMCParams().track) == default)


def methods(h):
    """The samplers' own building blocks leave their arguments alone."""
    c = h.cfg
    cls, z, n = c["cls"], c["complex"], 2
    st = Setup(h, cls, n=n, nd=n, cplx=z, dcplx=z, tune=True if cls == "PxMALA" else None, **({"s": 2} if cls == "SKROCK" else {}))
    V = {k: h.vec(k, n, cplx=z) for k in ("X", "Y", "P", "G", "preds")}
    C = {k: v.copy() for k, v in V.items()}
    st.s.logpi(V["X"], V["preds"])
    if cls == "SKROCK":
        st.s.chain_step(V["X"])
    else:
        st.s.chain_step(V["X"], V["P"], V["G"])
    if cls == "PxMALA":
        st.s.calc_logtransition(V["X"], V["Y"], V["P"], V["G"])
    for k in V:
        h.eq("argument unchanged: " + k, V[k], C[k])


def save(h):
    """Saving only reads the sampler, its parameters and the extras."""
    from .C26 import Store
    c = h.cfg
    cls, z = c["cls"], c["complex"]
    st = Setup(h, cls, n=2, nd=1, cplx=z, dcplx=z, tune=True if cls == "PxMALA" else None, nsamples=2, nburn=0, **({"s": 2} if cls == "SKROCK" else {}))
    st.s.run(h.vec("x", 2, cplx=z))
    recs = {k: getattr(st.s, k).copy() for k in ("chain", "logPi", "L2s", "priors", "preds") if hasattr(st.s, k)}
    lists = {k: list(v) for k, v in vars(st.s).items() if isinstance(v, list)}
    par = dict(vars(st.params))
    track = list(st.params.track)
    w = h.vec("wts", 2)
    w0 = w.copy()
    with Store(h) as d:
        h.mod("saving").save_mcmc(st.s, st.params, d.dir, "f", weights=w)
    for k, v in recs.items():
        h.eq("record unchanged: " + k, getattr(st.s, k), v)
    for k, v in lists.items():
        now = getattr(st.s, k)
        h.true("record as long as before: " + k, len(now) == len(v))
        if k != "track" and len(v):
            h.eq("record unchanged: " + k, h.seq([1 * e for e in now]), h.seq([1 * e for e in v]))
    h.true("parameter object: same fields", sorted(vars(st.params)) == sorted(par))
    h.true("parameter object: same values", all(vars(st.params)[k] is v for k, v in par.items()))
    h.true("list of tracked variables unchanged", list(st.params.track) == track)
    h.eq("extra unchanged", w, w0)


def plots(h):
    """Plots of traces and samples leave what they show alone (maps: C28)."""
    from . import C28
    n = h.cfg["n"]
    V = [h.vec(k, n, lo=-8, hi=8) for k in "pqr"] + [h.vec("s", n, cplx=True)]
    C = [v.copy() for v in V]
    with C28.world(h) as P:
        P.plot_evolution(*V[:3])
        P.plot_chain_sample(V[3])
    for v, w in zip(V, C):
        h.eq("plotted array unchanged", v, w)


def sparse_vec(h, name, n, pos=False):
    """Two arbitrary entries, the others fixed."""
    X = h.const([(0.05 + 0.01 * (i % 7)) * (1 if pos or i % 2 else -1) if i % 5 or pos else 0.0 for i in range(n)])
    for i in (1, n - 2):
        X[i] = h.real(f"{name}{i}", pos=pos)
    return X


def ops(h):
    """Proximal maps, thresholds, forward and adjoint operators do not modify what they are given."""
    c = h.cfg
    op, z = c["op"], c["complex"]
    n = c.get("n", 3)
    X = sparse_vec(h, "X", n) if op == "wavelet_prior" else h.vec("X", n, cplx=z)
    X0 = X.copy()
    if op == "soft":
        T = h.vec("T", n, pos=True) if c.get("vector") else h.real("T", pos=True)
        T0 = T.copy() if c.get("vector") else T
        h.mod("utils").soft(X, T)
        h.eq("threshold unchanged", T, T0)
    elif op == "prox":
        T = h.vec("T", n)
        T0 = T.copy()
        ident = lambda v: v
        p = h.mod("prior").L1(c["setting"], ident, ident, T)
        p.proxf(X)
        p.prior(X)
        h.eq("threshold unchanged", T, T0)
    elif op == "wavelet_prior":
        P = getattr(h.mod("prior"), c["cls"])
        T = sparse_vec(h, "T", n, pos=True)
        T0 = T.copy()
        ident = lambda v: v
        p = P("synthesis", ident, ident, T, c["L"], c["B"], c["J"])
        h.eq("threshold unchanged by the weighting", T, T0)
        p.proxf(X)
        p.prior(X)
        h.eq("threshold unchanged", T, T0)
    elif op == "identity":
        m = h.mod("measurements").Identity(n, n)
        m.forward(X)
        m.adjoint(X)
    elif op == "path":
        m = h.mod("measurements").PathIntegral(h.sparse(h.mat("A", n, n)))
        m.forward(X)
        m.adjoint(X)
    elif op == "gradient":
        f = h.mod("forward")
        m = h.mod("measurements").PathIntegral(h.sparse(h.mat("A", n, n)))
        d = h.vec("d", n, cplx=bool(c.get("dcomplex")))
        k = c.get("noise", "vector")
        if k == "matrix":
            s = h.real("s", pos=True) * h.const([[2.0 if i == j else 0.5 for j in range(n)] for i in range(n)])
        else:
            s = h.vec("s", n, pos=True) * (-1.0 if k == "negative" else 1)
        d0, s0 = d.copy(), s.copy()
        o = f.ForwardOperator(d, s, c.get("setting", "analysis"), transform=h.mod("transforms").IdentityTransform(), measurement=m, nparams=n)
        o.forward(X)
        o.calc_gradg(X)
        h.eq("data unchanged", d, d0)
        h.eq("noise level unchanged", s, s0)
    elif op == "lensing_harmonic":
        m = h.mod("measurements").WeakLensingHarmonic(3)
        for f in (m.forward, m.adjoint, m.sks_estimate):
            f(X)
    elif op == "lensing":
        L = c["L"]
        mask = h.const(c["mask"], dtype={"int": int, "bool": bool, "float": float}[c.get("mdtype", "int")])
        mask0 = mask.copy()
        ng = h.array("ngal", (L, 2 * L - 1), pos=True) if not c.get("zeros") else h.const([[(i + j) % 3 for j in range(2 * L - 1)] for i in range(L)], dtype=c["zeros"])
        ng0 = ng.copy()
        m = h.mod("measurements").WeakLensing(L, mask=mask, ngal=ng)
        m.forward(X)
        Y = h.vec("Y", sum(map(sum, c["mask"])), cplx=True)
        Y0 = Y.copy()
        m.adjoint(Y)
        h.eq("data unchanged", Y, Y0)
        h.eq("mask unchanged", mask, mask0)
        h.eq("galaxy counts unchanged", ng, ng0)
    elif op == "wavelet":
        t = h.mod("transforms").SphericalWaveletTransform(c["L"], c["B"], c["J"])
        W = h.vec("W", t.ncoefs, cplx=z)
        W0 = W.copy()
        t.forward(X)
        t.inverse_adjoint(X)
        t.inverse(W)
        t.forward_adjoint(W)
        h.eq("coefficients unchanged", W, W0)
    elif op == "expand":
        u = h.mod("utils")
        if c["mode"] == "scales":
            w, s = u.expand_mlm(X, nscales=2)
        else:
            w, s = u.expand_mlm(X, nscalcoefs=1)
        w0, s0 = w.copy(), s.copy()
        u.flatten_mlm(w, s)
        h.eq("wavelets unchanged", w, w0)
        h.eq("scaling unchanged", s, s0)
    elif op == "uncertainty":
        M = h.mat("M", 3, 2)
        M0 = M.copy()
        u = h.mod("uncertainty")
        u.credible_interval_range(M)
        u.credible_region_threshold(X)
        h.eq("chain unchanged", M, M0)
        W = h.const([[0.3 * ((i * 7 + j * 3) % 5) - 0.1 * j for j in range(13)] for i in range(3)])
        for i in range(2):
            W[i, 2 + i] = h.real(f"W{i}")
        W0 = W.copy()
        u.wavelet_credible_interval_range(W, 2, 2, 0)
        h.eq("wavelet chain unchanged", W, W0)
    elif op == "integrate":
        h.mod("utils").s2_integrate(X, c["L"])
        h.mod("utils").norm(X)
    elif op == "chebyshev":
        u = h.mod("utils")
        for k in range(4):
            for f in (u.chebyshev1, u.chebyshev2, u.cheb1der):
                f(X, k)
    elif op == "membership":
        h.mod("uncertainty").in_credible_region(X, h.real("thr"))
    elif op == "snr":
        Y = h.vec("Y", n, pos=True)
        Y0 = Y.copy()
        h.assume(h.np.sum(h.np.real(X) * h.np.real(X)) > 0)
        h.mod("utils").snr(X, Y)
        h.eq("noise unchanged", Y, Y0)
    h.eq("input unchanged", X, X0)


MASK2 = [[1, 0, 1], [1, 1, 0]]
_q = [dict(op="soft", complex=z, vector=v) for z in (False, True) for v in (False, True)] + \
     [dict(op="prox", setting=s, complex=z, n=2) for s in ("synthesis", "analysis") for z in (False, True)] + \
     [dict(op="wavelet_prior", cls="S2_Wavelets_L1", L=2, B=2, J=0, n=13, complex=False),
      dict(op="wavelet_prior", cls="S2_Wavelets_L1_Power_Weights", L=3, B=3, J=0, n=31, complex=False)] + \
     [dict(op=o, complex=z, n=2) for o in ("identity", "path", "gradient") for z in (False, True)] + \
     [dict(op="lensing_harmonic", n=9, complex=True), dict(op="lensing", L=2, mask=MASK2, n=6, complex=True),
      dict(op="lensing", L=2, mask=MASK2, n=6, complex=False), dict(op="lensing", L=2, mask=MASK2, n=6, complex=False, mdtype="bool"),
      dict(op="lensing", L=2, mask=MASK2, n=6, complex=True, mdtype="bool", zeros="float"), dict(op="lensing", L=2, mask=MASK2, n=6, complex=True, zeros="int"),
      dict(op="lensing", L=2, mask=MASK2, n=6, complex=False, mdtype="float", zeros="float"),
      dict(op="wavelet", L=2, B=2, J=0, n=6, complex=True), dict(op="wavelet", L=2, B=2, J=0, n=6, complex=False),
      dict(op="expand", mode="scales", n=6, complex=True), dict(op="expand", mode="coefs", n=4, complex=False),
      dict(op="uncertainty", n=3, complex=False), dict(op="snr", n=2, complex=False),
      dict(op="integrate", n=6, L=2, complex=False), dict(op="integrate", n=15, L=3, complex=True), dict(op="chebyshev", n=2, complex=False),
      dict(op="chebyshev", n=1, complex=True)] + \
     [dict(op="gradient", n=2, complex=z, dcomplex=z, noise=k, setting=s) for z, k, s in
      ((False, "negative", "analysis"), (False, "matrix", "analysis"), (True, "matrix", "synthesis"), (False, "negative", "synthesis"), (True, "vector", "synthesis"))]
PREIMPORT = ("matplotlib.pyplot",)


def _stubs():
    from .C28 import stubs
    return stubs()


HARNESSES = {
    "run": dict(fn=run, quick=[dict(cls=k, n=2, complex=z) for k in ("MYULA", "PxMALA", "SKROCK") for z in (False, True)]),
    "settings": dict(fn=settings, quick=[dict(cls=k, n=1, complex=z, runs=r, s=s, tune=t) for k, t in (("MYULA", False), ("PxMALA", True), ("PxMALA", False), ("SKROCK", False))
                                         for z, r, s in ((False, False, 3), (True, True, 1))]),
    "lists": dict(fn=lists, quick=[dict(cls=k, complex=z) for k in ("MYULA", "PxMALA", "SKROCK") for z in (False, True)]),
    "tracklist": dict(fn=tracklist, quick=[dict(cls=k, track=t) for k in ("MYULA", "PxMALA", "SKROCK") for t in (None, ["chain"], [])]),
    "methods": dict(fn=methods, quick=[dict(cls=k, complex=z) for k in ("MYULA", "PxMALA", "SKROCK") for z in (False, True)]),
    "ops": dict(fn=ops, quick=_q),
    "plots": dict(fn=plots, opts=dict(extra=_stubs), quick=[dict(n=2), dict(n=3)]),
    "save": dict(fn=save, quick=[dict(cls=k, complex=z) for k in ("MYULA", "PxMALA", "SKROCK") for z in (False, True)]),
}
