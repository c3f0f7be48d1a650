"""Which states of the chain are saved: burn-in, thinning, number of samples."""
from .common import Setup, Fwd, Marathon, Prior, Script, scripted, script_check_saved, script_pxmala

BOUNDS = ("burn-in 0..4 and thinning 0..4 symbolic, 1-4 saved samples (quick), up to 0..6 / 0..6 / 6 (thorough), operators, start point and draws "
          "arbitrary; PxMALA: at most 5 iterations, every accept/reject pattern; long runs (burn-in up to 100, thinning up to 20, tabulated operators, "
          "four accept/reject patterns) with symbolic draws; runs of more than 1000 iterations with fixed numbers")


def build(h, cls, fwd, prior, c, **p):
    kw = {"s": c.get("s", 1)} if cls == "SKROCK" else {}
    return Setup(h, cls, n=1, nd=1, fwd=fwd, prior=prior, tune=c.get("tune") if cls == "PxMALA" else None,
                 **{"lmda": h._lm, "delta": h._de, "mu": h._mu, **kw, **p})


def shared(h, n=1, nd=1):
    h._lm, h._de, h._mu = (h.real(v, pos=True) for v in ("lmda", "delta", "mu"))
    return Fwd(h, n, nd), Prior(h, n)


def schedule(h):
    c = h.cfg
    cls, ns = c["cls"], c["nsamples"]
    fwd, prior = shared(h)
    nburn = h.int("nburn", 0, c["maxburn"])
    ngap = h.int("ngap", 0, c["maxgap"])
    x0 = h.vec("x", 1)
    a = build(h, cls, fwd, prior, c, nsamples=ns, nburn=nburn, ngap=ngap)
    a.s.run(x0.copy())
    nb, ng = nburn.__index__(), ngap.__index__()
    step = max(ng, 1)
    total = nb + (ns - 1) * step + 1
    h.rewind()
    b = build(h, cls, fwd, prior, c, nsamples=total, nburn=0, ngap=1)
    b.s.run(x0.copy())
    h.true("all samples saved", a.s.chain.shape[0] == ns)
    for name in ("chain", "logPi", "L2s", "priors", "preds"):
        for j in range(ns):
            h.eq(f"saved {name}", getattr(a.s, name)[j], getattr(b.s, name)[nb + j * step])


def rerun(h):
    """A sampler can be run again: the second run is a complete new run."""
    c = h.cfg
    fwd, prior = shared(h)
    x0, x1 = h.vec("x", 1), h.vec("y", 1)
    p = dict(nsamples=c["nsamples"], nburn=c["nburn"], ngap=c["ngap"])
    a = build(h, c["cls"], fwd, prior, c, **p)
    a.s.run(x0.copy())
    h.rewind()
    delta = a.s.delta  # adapted during the first run when tuning
    a.s.run(x1.copy())
    h.rewind()
    b = build(h, c["cls"], fwd, prior, c, **p, delta=delta)
    b.s.run(x1.copy())
    for name in ("chain", "logPi", "L2s", "priors", "preds"):
        h.eq("second run: " + name, getattr(a.s, name), getattr(b.s, name))
    if c["cls"] == "PxMALA":
        h.eq("second run: acceptances", h.seq(a.s.acceptance_trace), h.seq(b.s.acceptance_trace))


def long(h):
    """Long schedules on a tabulated model: which of the visited states are saved."""
    c = h.cfg
    if c["cls"] == "PxMALA":
        st, x0, total, flags, visited = script_pxmala(h, c, c["tune"])
    else:
        sc = (Marathon if c.get("marathon") else Script)(h, c.get("n", 1), 2, c.get("complex", False))
        st = scripted(h, c["cls"], sc, mu=1.0, nsamples=c["ns"], nburn=c["nburn"], ngap=c["ngap"], verbosity=c["verbosity"], **({"delta": 0.125, "lmda": 0.5} if c.get("marathon") else {}))
        st.s.run(h.vec("x", c.get("n", 1), cplx=c.get("complex", False)))
        total = c["nburn"] + (c["ns"] - 1) * max(c["ngap"], 1) + 1
        # SKROCK also evaluates the model inside each step
        per = 2 if c["cls"] == "SKROCK" else 1
        h.true("iterations made", len(sc.points) == per * total + 1)
        visited = [per * (k + 1) for k in range(total)]
    script_check_saved(h, st, visited, c["nburn"], c["ngap"], c["ns"])


LONG = [(23, 17, 7, 0), (5, 100, 20, 25), (101, 0, 1, 100), (12, 3, 0, 5), (1, 33, 50, 10), (60, 1, 2, 1), (2, 90, 1, 0), (6, 0, 25, 10), (9, 8, 8, 16)]

# the default schedule of the parameters, and more than a thousand saved samples
MARATHON = [dict(cls=k, ns=s, nburn=b, ngap=g, verbosity=v, marathon=True, **({"pattern": "mixed", "tune": t, "delta": 0.125, "lmda": 0.5} if k == "PxMALA" else {}))
            for k in ("MYULA", "SKROCK", "PxMALA") for s, b, g, v, t in ((4, 1000, 100, 100, False), (1030, 10, 1, 500, False))]


def _cfgs(burn, gap, samples):
    return [dict(cls=k, nsamples=s, maxburn=burn, maxgap=gap) for k in ("MYULA", "SKROCK") for s in samples]


HARNESSES = {
    "long": dict(fn=long, quick=[dict(cls=k, ns=s, nburn=b, ngap=g, verbosity=v) for k in ("MYULA", "SKROCK") for s, b, g, v in LONG] +
                 [dict(cls="PxMALA", ns=s, nburn=b, ngap=g, verbosity=v, pattern=p, tune=t) for (s, b, g, v), p, t in
                  zip(LONG, ("mixed", "runs", "alternate", "reject", "mixed", "mixed", "runs", "mixed", "runs"), (False, False, True, True, False, False, False, False, False))] + MARATHON +
                 [dict(cls=k, ns=6, nburn=3, ngap=2, verbosity=4, n=9, complex=True, pattern="mixed", tune=False) for k in ("MYULA", "SKROCK", "PxMALA")],
                 thorough=[dict(cls=k, ns=40, nburn=60, ngap=5, verbosity=7) for k in ("MYULA", "SKROCK")]),
    "schedule": dict(fn=schedule,
                     quick=_cfgs(4, 4, (1, 2, 4)) + [dict(cls="SKROCK", s=2, nsamples=2, maxburn=1, maxgap=2), dict(cls="PxMALA", nsamples=1, maxburn=2, maxgap=2, tune=True),
                                                     dict(cls="PxMALA", nsamples=2, maxburn=1, maxgap=2, tune=False),
                                                     dict(cls="PxMALA", nsamples=3, maxburn=0, maxgap=2, tune=False),
                                                     dict(cls="PxMALA", nsamples=2, maxburn=1, maxgap=1, tune=True)],
                     thorough=_cfgs(6, 6, (3, 6)) + [dict(cls="PxMALA", nsamples=2, maxburn=3, maxgap=3, tune=False),
                                                     dict(cls="PxMALA", nsamples=3, maxburn=1, maxgap=2, tune=False),
                                                     dict(cls="PxMALA", nsamples=2, maxburn=2, maxgap=2, tune=True)]),
    "rerun": dict(fn=rerun, quick=[dict(cls=k, nsamples=2, nburn=1, ngap=2) for k in ("MYULA", "SKROCK")] +
                  [dict(cls="PxMALA", nsamples=2, nburn=0, ngap=1, tune=False), dict(cls="PxMALA", nsamples=1, nburn=1, ngap=1, tune=False),
                   dict(cls="PxMALA", nsamples=1, nburn=1, ngap=1, tune=True)],
                  thorough=[dict(cls=k, nsamples=3, nburn=2, ngap=3) for k in ("MYULA", "SKROCK")]),
}
