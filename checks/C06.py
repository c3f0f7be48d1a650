"""Step-size adaptation of PxMALA."""
from .common import Setup, script_pxmala

BOUNDS = ("up to 4 iterations, every accept/reject pattern, initial step size and smoothing parameter any positive reals; second runs of one or two iterations; always-accepting chains of 40 "
          "(quick) / 80 (thorough) iterations; chosen accept/reject patterns of up to 150 iterations and one above 1000 with chosen step sizes")


def rule(h, d, lm, a, i):
    np = h.np
    new = d * (1 + (a - 0.5) / ((i + 1) ** 0.75))
    return np.minimum(np.maximum(new, lm * 1e-8), lm / 2)


def chain(h):
    c = h.cfg
    st = Setup(h, "PxMALA", n=1, nd=1, nsamples=c["ns"], nburn=c["nburn"], ngap=c["ngap"], tune=c["tune"])
    start = st.delta
    if c.get("again"):
        # a second run of the same sampler goes by its own iterations and starts with the step size in use
        st.s.run(h.vec("earlier", 1))
        start = st.s.delta
    st.s.run(h.vec("x", 1))
    acc = [1 if bool(a == 1) else 0 for a in st.s.acceptance_trace]
    d = list(st.s.deltas_trace)
    if not c["tune"]:
        h.eq("step size is never changed when tuning is off", st.s.delta, st.delta)
        for x in d:
            h.eq("no other step size is reported", x, st.delta)
        return
    h.true("a step size per iteration", len(d) == len(acc) + 1)
    h.eq("starts from the configured step size", d[0], start)
    for i, a in enumerate(acc):
        h.eq("adaptation rule", d[i + 1], rule(h, d[i], st.lmda, a, i))
        h.true("step size stays within its limits", (d[i + 1] >= st.lmda * 1e-8) & (d[i + 1] <= st.lmda / 2))


class FlatFwd:
    """A model without information: every proposal is as good as the state, so all are accepted."""

    def __init__(self, h):
        self.h, self.nparams = h, 1
        self.data = h.const([1.0])
        self.invcov = h.sparse(h.const([[1.0]]))
        self.setting = "synthesis"

    def forward(self, X):
        return self.h.const([0.25])

    def calc_gradg(self, preds):
        return self.h.const([0.0])


class FlatPrior:
    def proxf(self, X):
        return X

    def prior(self, X):
        return 0.5


def long(h):
    """A long run in which every proposal is accepted."""
    c = h.cfg
    st = Setup(h, "PxMALA", fwd=FlatFwd(h), prior=FlatPrior(), nsamples=c["k"], tune=True)
    st.s.run(h.vec("x", 1))
    acc, d = list(st.s.acceptance_trace), list(st.s.deltas_trace)
    h.true("all accepted", len(acc) == c["k"] and all(bool(a == 1) for a in acc))
    h.true("a step size per iteration", len(d) == len(acc) + 1)
    for i, a in enumerate(acc):
        h.eq("adaptation rule", d[i + 1], rule(h, d[i], st.lmda, a, i))


def pattern(h):
    """Long runs that both accept and reject."""
    c = h.cfg
    st, x0, total, flags, visited = script_pxmala(h, c, c["tune"])
    d = list(st.s.deltas_trace)
    if not c["tune"]:
        h.eq("step size is never changed when tuning is off", st.s.delta, st.delta)
        for x in d:
            h.eq("no other step size is reported", x, st.delta)
        return
    h.true("a step size per iteration", len(d) == total + 1)
    h.eq("starts from the configured step size", d[0], st.delta)
    for i, a in enumerate(flags):
        h.eq("adaptation rule", d[i + 1], rule(h, d[i], st.lmda, a, i))
    h.eq("last traced step size is the current one", d[-1], st.s.delta)


PATTERNS = [dict(ns=s, nburn=b, ngap=g, verbosity=v, pattern=p, tune=t) for s, b, g, v, p, t in
            ((24, 0, 1, 0, "mixed", True), (30, 0, 1, 0, "reject", True), (4, 12, 4, 10, "runs", True), (3, 5, 9, 0, "alternate", True),
             (40, 0, 1, 0, "mixed", False), (2, 20, 3, 0, "mixed", True))]
# numeric step sizes, so that much longer runs stay in reach (including ones at either limit)
PATTERNS += [dict(ns=s, nburn=b, ngap=1, pattern=p, tune=True, delta=d, lmda=l) for s, b, p, d, l in
             ((110, 0, "runs", 0.0625, 0.25), (20, 110, "mixed", 0.0625, 8.0), (60, 0, "reject", 1e-7, 4.0), (60, 0, "accept", 0.5, 1.125),
              (12, 0, "mixed", 4.0, 0.5), (12, 0, "mixed", 1e-12, 0.5))]
# the default burn-in
PATTERNS += [dict(ns=s, nburn=b, ngap=g, pattern=p, tune=t, delta=0.125, lmda=0.5, marathon=True, verbosity=v) for s, b, g, p, t, v in
             ((2, 1000, 100, "runs", True, 100),)]

HARNESSES = {
    "pattern": dict(fn=pattern, quick=PATTERNS, thorough=[dict(ns=150, nburn=50, ngap=1, verbosity=9, pattern="mixed", tune=True)]),
    "chain": dict(fn=chain, quick=[dict(ns=n, nburn=b, ngap=g, tune=True) for n, b, g in ((1, 0, 1), (3, 0, 1), (2, 1, 1), (2, 0, 2))] +
                  [dict(ns=2, nburn=1, ngap=2, tune=False), dict(ns=1, nburn=0, ngap=1, tune=True, again=True),
                   dict(ns=1, nburn=1, ngap=1, tune=True, again=True), dict(ns=1, nburn=0, ngap=1, tune=False, again=True)],
                  thorough=[dict(ns=5, nburn=0, ngap=1, tune=True), dict(ns=2, nburn=1, ngap=3, tune=True)]),
    "long": dict(fn=long, quick=[dict(k=k) for k in (12, 40)], thorough=[dict(k=80)]),
}
