"""Diagnostics recorded with a sample are that sample's; tracking and verbosity are passive."""
from .common import Setup, Fwd, Prior, Marathon, Script, double_precision, script_check_saved, script_pxmala, scripted

BOUNDS = ("every subset of the five trackable variables (symbolic), verbosity 0..3 (symbolic), 2-3 saved samples, burn-in/thinning (0,1) (1,2) (2,3); "
          "real and complex parameters and data of dimension 1-2, integer data; PxMALA up to 3 iterations, every accept/reject pattern; long runs "
          "(tabulated operators, up to 100+ iterations, symbolic draws) and one of more than 1000 with fixed numbers")
NAMES = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "chain": "chain", "predictions": "preds"}


def run(h, c, track, verbosity, fwd, prior, lm, de, mu, x0):
    cls = c["cls"]
    kw = {"s": c.get("s", 1)} if cls == "SKROCK" else {}
    st = Setup(h, cls, n=c["n"], nd=c["nd"], cplx=c["complex"], dcplx=c["dcomplex"], fwd=fwd, prior=prior, lmda=lm, delta=de, mu=mu,
               tune=c.get("tune") if cls == "PxMALA" else None, nsamples=c["k"], nburn=c["nburn"], ngap=c["ngap"],
               verbosity=verbosity, track=list(track), **kw)
    st.s.run(x0.copy())
    return st


def inputs(h, c):
    lm, de, mu = (h.real(v, pos=True) for v in ("lmda", "delta", "mu"))
    # data counted in whole numbers: predictions are not
    data = h.const([3, -2, 5][:c["nd"]], dtype=int) if c.get("dint") else h.vec("d", c["nd"]) if c.get("dreal") else None
    fwd = Fwd(h, c["n"], c["nd"], c["complex"], c["dcomplex"], data=data)
    prior = Prior(h, c["n"], c["complex"])
    return fwd, prior, lm, de, mu, h.vec("x", c["n"], cplx=c["complex"])


def values(h):
    """Each recorded value is that of the recorded sample."""
    c = h.cfg
    a = inputs(h, c)
    # real data, complex predictions: recorded predictions are outside
    st = run(h, c, [n for n in NAMES if n != "predictions" or not c.get("dreal")], 0, *a)
    fwd, prior = a[0], a[1]
    for j in range(c["k"]):
        X = st.s.chain[j]
        if not c.get("dreal"):
            h.eq("predictions", st.s.preds[j], fwd.preds_at(X))
        h.eq("L2", st.s.L2s[j], fwd.L2_at(X))
        h.eq("prior", st.s.priors[j], prior.Q.lookup(X))
        h.eq("log posterior", st.s.logPi[j], st.logpost(X))
    double_precision(h, st.s)


def passive(h):
    """Any choice of tracked variables and verbosity gives the same recorded values."""
    c = h.cfg
    a = inputs(h, c)
    track = [t for t in NAMES if h.flag("track_" + t)]
    verbosity = h.int("verbosity", 0, 3)
    st = run(h, c, track, verbosity, *a)
    h.rewind()
    ref = run(h, c, list(NAMES), 0, *a)
    for t, name in NAMES.items():
        h.true(f"{t}: recorded exactly when tracked", hasattr(st.s, name) == (t in track))
        if t in track:
            h.eq("same " + name, getattr(st.s, name), getattr(ref.s, name))


def long(h):
    """Long runs with progress output at various intervals."""
    c = h.cfg
    if c["cls"] == "PxMALA":
        st, x0, total, flags, visited = script_pxmala(h, c, c["tune"])
    else:
        z = c.get("complex", False)
        sc = (Marathon if c.get("marathon") else Script)(h, 2, 3, z, z)
        st = scripted(h, c["cls"], sc, mu=1.0, nsamples=c["ns"], nburn=c["nburn"], ngap=c["ngap"], verbosity=c["verbosity"],
                      **({"track": list(c["track"])} if "track" in c else {}), **({"delta": 0.125, "lmda": 0.5} if c.get("marathon") else {}))
        st.s.run(h.vec("x", 2, cplx=z))
        per = 2 if c["cls"] == "SKROCK" else 1
        visited = [per * (k + 1) for k in range(c["nburn"] + (c["ns"] - 1) * max(c["ngap"], 1) + 1)]
        h.true("iterations made", len(sc.points) == visited[-1] + 1)
    script_check_saved(h, st, visited, c["nburn"], c["ngap"], c["ns"])


LONG = [dict(cls=k, ns=s, nburn=b, ngap=g, verbosity=v, complex=z) for k in ("MYULA", "SKROCK") for s, b, g, v, z in
        ((30, 5, 1, 10, False), (6, 20, 6, 5, True), (105, 0, 1, 100, False))]
LONG += [dict(cls="PxMALA", ns=s, nburn=b, ngap=g, verbosity=v, complex=z, pattern=p, tune=t, n=2) for s, b, g, v, z, p, t in
         ((30, 5, 1, 10, False, "mixed", False), (6, 20, 4, 5, True, "runs", False), (25, 0, 1, 1, False, "alternate", True))]

LONG += [dict(cls=k, ns=s, nburn=b, ngap=g, verbosity=v, complex=z, track=t, **({"pattern": "mixed", "tune": True, "n": 2} if k == "PxMALA" else {}))
         for k in ("MYULA", "SKROCK", "PxMALA") for s, b, g, v, z, t in
         ((12, 1, 2, 3, False, ["predictions"]), (9, 0, 1, 0, True, ["predictions", "prior"]), (8, 3, 1, 2, False, ["L2", "chain"]),
          (8, 0, 3, 1, False, ["logposterior"]), (7, 2, 0, 2, True, ["prior", "L2", "logposterior", "predictions"]))]

LONG += [dict(cls="MYULA", ns=1100, nburn=0, ngap=1, verbosity=100, complex=False, marathon=True)]


def _c(cls, k=2, nb=0, ng=1, n=1, nd=1, z=False, dz=False, **o):
    return dict(cls=cls, k=k, nburn=nb, ngap=ng, n=n, nd=nd, complex=z, dcomplex=dz, **o)


HARNESSES = {
    "long": dict(fn=long, quick=LONG),
    "values": dict(fn=values, quick=[
        _c("MYULA", 2, 0, 1, 2, 2, True, True, dreal=True), _c("SKROCK", 1, 1, 1, 1, 2, True, True, dreal=True), _c("PxMALA", 2, 0, 1, 1, 1, True, True, dreal=True, tune=False),
        _c("MYULA", 2, 0, 1, 1, 2, dint=True), _c("SKROCK", 2, 0, 1, 1, 1, dint=True), _c("PxMALA", 2, 0, 1, 1, 2, dint=True, tune=False),
        _c("MYULA", 2, 1, 2, 2, 2), _c("MYULA", 2, 0, 1, 2, 2, True, True), _c("MYULA", 2, 2, 3, 1, 2, False, True),
        _c("SKROCK", 2, 1, 2, 2, 2), _c("SKROCK", 2, 0, 1, 1, 2, True, True, s=2),
        _c("PxMALA", 3, 0, 1, 1, 1, tune=True), _c("PxMALA", 2, 0, 2, 2, 2, True, True, tune=False),
        _c("PxMALA", 2, 1, 1, 2, 1, tune=False)],
        thorough=[_c("MYULA", 4, 3, 3, 3, 3, True, True), _c("SKROCK", 3, 2, 2, 2, 2, True, True), _c("PxMALA", 2, 1, 2, 2, 2, tune=False),
                  _c("PxMALA", 4, 0, 1, 1, 1, tune=False)]),
    "passive": dict(fn=passive, quick=[_c("MYULA", 2, 2, 3), _c("MYULA", 2, 1, 2, 1, 1, True, True), _c("SKROCK", 2, 2, 2),
                                       _c("PxMALA", 1, 1, 2, tune=True), _c("PxMALA", 2, 0, 1, tune=False)],
                    thorough=[_c("MYULA", 3, 3, 2), _c("PxMALA", 2, 1, 1, tune=True)]),
}
