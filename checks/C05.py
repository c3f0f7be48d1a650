"""Bookkeeping of accepted and rejected proposals."""
from .common import Setup, count_points, script_check_saved, script_pxmala

BOUNDS = ("up to 4 iterations, every accept/reject pattern, burn-in 0..2, thinning 0..3, tuning on/off; dimension 1-2 and 9, real and complex; second runs; "
          "long runs (tabulated operators, chosen accept/reject patterns, up to 120 iterations and one above 1000)")


def trace(h):
    c = h.cfg
    n, z = c["n"], c["complex"]
    st = Setup(h, "PxMALA", n=n, nd=1, cplx=z, nsamples=c["ns"], nburn=c["nburn"], ngap=c["ngap"], tune=c["tune"],
               verbosity=c.get("verbosity", 0))
    x0 = h.vec("x", n, cplx=z)
    st.s.run(x0.copy())
    step = max(c["ngap"], 1)
    total = c["nburn"] + (c["ns"] - 1) * step + 1
    acc = list(st.s.acceptance_trace)
    h.true("one acceptance entry per iteration, burn-in included", len(acc) == total)
    count_points(h, st.fwd, 1 + total, "one proposal per iteration")
    props = st.fwd.points[1:]
    states, x = [], x0
    for j in range(total):
        a = bool(acc[j] == 1)
        h.true("acceptance entries are 0 or 1", a or bool(acc[j] == 0))
        x = props[j] if a else x
        states.append(x)
    for j in range(c["ns"]):
        X = states[c["nburn"] + j * step]
        h.eq("saved state: proposal if accepted, previous state if not", st.s.chain[j], X)
        h.eq("predictions follow the state", st.s.preds[j], st.fwd.preds_at(X))
        h.eq("log posterior follows the state", st.s.logPi[j], st.logpost(X))
        h.eq("L2 follows the state", st.s.L2s[j], st.fwd.L2_at(X))
        h.eq("prior follows the state", st.s.priors[j], st.prior.Q.lookup(X))
    d = list(st.s.deltas_trace)
    h.eq("first step size is the initial one", d[0], st.delta)
    if c["tune"]:
        h.true("one step size per iteration plus the initial one", len(d) == total + 1)
        h.eq("last traced step size is the current one", d[-1], st.s.delta)
    else:
        h.eq("step size stays", st.s.delta, st.delta)


def _c(ns, nb=0, ng=1, n=1, z=False, tune=False, **k):
    return dict(ns=ns, nburn=nb, ngap=ng, n=n, complex=z, tune=tune, **k)


def others(h):
    """The books of a run stay as they are when another sampler makes one."""
    c = h.cfg
    st = Setup(h, "PxMALA", n=1, nd=1, nsamples=c["ns"], nburn=c["nburn"], ngap=1, tune=c["tune"], name="a")
    st.s.run(h.vec("x", 1))
    names = ("acceptance_trace", "deltas_trace", "chain", "logPi", "L2s", "priors", "preds")
    keep = {k: list(getattr(st.s, k)) for k in names}
    keep = {k: [1 * v for v in keep[k]] for k in names}
    s2 = Setup(h, "PxMALA", n=1, nd=1, nsamples=1, nburn=1, ngap=1, tune=not c["tune"], name="b")
    s2.s.run(h.vec("y", 1))
    for k in names:
        now = list(getattr(st.s, k))
        h.true("as many entries after another sampler's run: " + k, len(now) == len(keep[k]))
        for a, b in zip(now, keep[k]):
            h.eq("same entries after another sampler's run: " + k, a, b)


def again(h):
    """A second run of the same sampler keeps its own books."""
    c = h.cfg
    st = Setup(h, "PxMALA", n=1, nd=1, nsamples=c["ns"], nburn=c["nburn"], ngap=1, tune=c["tune"])
    total = c["nburn"] + c["ns"]
    for r in range(2):
        x0 = h.vec(f"x{r}", 1)
        d0 = st.s.delta
        before = len(st.fwd.points)
        st.s.run(x0.copy())
        h.true("one acceptance entry per iteration of this run", len(st.s.acceptance_trace) == total)
        h.eq("first step size of the trace is the one the run started with", st.s.deltas_trace[0], d0)
        if c["tune"]:
            h.true("one step size per iteration of this run plus the initial one", len(st.s.deltas_trace) == total + 1)
        new = st.fwd.points[before:]
        if h.mode == "conc" and len(new) != total + 1:
            h.assume(False)
        h.true("one proposal per iteration", len(new) == total + 1)
        x = x0
        for j in range(total):
            x = new[j + 1] if bool(st.s.acceptance_trace[j] == 1) else x
            if j >= c["nburn"]:
                X = st.s.chain[j - c["nburn"]]
                h.eq("saved state", X, x)
                h.eq("log posterior follows the state", st.s.logPi[j - c["nburn"]], st.logpost(x))


def long(h):
    """Long runs with a given accept/reject pattern."""
    c = h.cfg
    st, x0, total, flags, visited = script_pxmala(h, c, c["tune"])
    acc = list(st.s.acceptance_trace)
    h.true("one acceptance entry per iteration, burn-in included", len(acc) == total)
    h.eq("acceptance trace", h.seq(acc, dtype=float), h.const([float(a) for a in flags]))
    script_check_saved(h, st, visited, c["nburn"], c["ngap"], c["ns"])
    d = list(st.s.deltas_trace)
    if c["tune"]:
        h.true("one step size per iteration plus the initial one", len(d) == total + 1)
    h.eq("first step size is the initial one", d[0], st.delta)
    h.eq("last traced step size is the current one", d[-1], st.s.delta)


LONG = [dict(ns=s, nburn=b, ngap=g, verbosity=v, pattern=p, tune=t, complex=z, n=n) for s, b, g, v, p, t, z, n in
        ((40, 0, 1, 0, "mixed", False, False, 1), (40, 0, 1, 3, "mixed", True, False, 1), (6, 25, 4, 10, "runs", False, True, 2),
         (8, 5, 7, 0, "alternate", True, False, 2), (30, 1, 0, 1, "reject", True, False, 1), (110, 0, 1, 100, "mixed", False, False, 1),
         (3, 60, 11, 0, "runs", True, False, 1), (2, 100, 1, 50, "mixed", False, False, 1))]
LONG += [dict(ns=3, nburn=1000, ngap=100, verbosity=100, pattern="mixed", tune=False, complex=False, n=1, delta=0.125, lmda=0.5, marathon=True), dict(ns=1100, nburn=0, ngap=1, verbosity=100, pattern="runs", tune=False, complex=False, n=1, delta=0.125, lmda=0.5, marathon=True)]

HARNESSES = {
    "again": dict(fn=again, quick=[dict(ns=2, nburn=0, tune=False), dict(ns=1, nburn=1, tune=True)]),
    "others": dict(fn=others, quick=[dict(ns=2, nburn=0, tune=False), dict(ns=1, nburn=1, tune=True)]),
    "long": dict(fn=long, quick=LONG, thorough=[dict(ns=150, nburn=50, ngap=1, verbosity=9, pattern="mixed", tune=True, complex=False, n=1)]),
    "trace": dict(fn=trace, quick=[_c(3), _c(2, 1, 1), _c(2, 0, 2), _c(2, 0, 0, 2, True), _c(1, 2, 1, 2), _c(3, tune=True), _c(2, 0, 2, tune=True),
                                   _c(1, 2, 3, tune=True), _c(2, 1, 1, verbosity=2), _c(4, tune=False), _c(2, 0, 1, 9, True)],
                  thorough=[_c(5), _c(2, 1, 3), _c(4, tune=True), _c(3, 0, 2, 2, True), _c(3, 2, 1)]),
}
