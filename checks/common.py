"""Pieces shared by the harnesses: user-supplied operators as arbitrary functions."""


def abs2(h, z):
    """sum |z_i|^2, exactly, for symbolic and numeric vectors."""
    np = h.np
    return np.sum(np.real(z) * np.real(z) + np.imag(z) * np.imag(z))


def _samevec(h, a, b):
    if h.mode == "conc":
        return a.shape == b.shape and bool((abs(a - b) <= 1e-12 * (1 + abs(b))).all())
    from symx.core import to_s
    from symx.harness import _close
    return a.shape == b.shape and all(_close(to_s(x), to_s(y)) for x, y in zip(a.raw.flat, b.raw.flat))


class Fwd:
    """A forward operator the sampler knows nothing about: arbitrary forward map,
    arbitrary gradient map, arbitrary positive diagonal inverse covariance."""

    def __init__(self, h, n=2, nd=2, cplx=False, dcplx=False, name="", data=None):
        self.h = h
        self.nparams = n
        self.cplx, self.dcplx = cplx, dcplx
        self.data = h.vec(name + "d", nd, cplx=dcplx) if data is None else data
        self.w = h.vec(name + "w", nd, pos=True)
        self.invcov = h.sparse(h.np.diag(self.w))
        self.F = h.oracle(name + "F", nd, cplx=dcplx)
        self.G = h.oracle(name + "G", n, cplx=cplx)
        self.setting = "synthesis"

        self.points = []

    def forward(self, X):
        """Remembers the distinct points at which the code evaluates the model, in order."""
        if not any(_samevec(self.h, X, p) for p in self.points):
            self.points.append(X.copy())
        return self.F(X)

    def calc_gradg(self, preds):
        return self.G(preds)

    # reference values (not counted as calls of the code under check)
    def preds_at(self, X):
        return self.F.lookup(X)

    def grad_at(self, X):
        return self.G.lookup(self.F.lookup(X))

    def L2_at(self, X):
        r = self.data - self.preds_at(X)
        np = self.h.np
        return np.sum(self.w * (np.real(r) * np.real(r) + np.imag(r) * np.imag(r)))


class Prior:
    def __init__(self, h, n=2, cplx=False, name=""):
        self.P = h.oracle(name + "prox", n, cplx=cplx)
        self.Q = h.oracle(name + "prior", 1, scalar=True)

    def proxf(self, X):
        return self.P(X)

    def prior(self, X):
        return self.Q(X)


class Setup:
    def __init__(self, h, cls, n=2, nd=2, cplx=False, dcplx=False, name="", fwd=None, prior=None, tune=None, lmda=None,
                 delta=None, mu=None, gcplx=None, **params):
        gcplx = cplx if gcplx is None else gcplx
        self.h = h
        self.mcmc = h.mod("mcmc")
        self.fwd = fwd or Fwd(h, n, nd, gcplx, dcplx, name)
        self.prior = prior or Prior(h, n, gcplx, name)
        self.lmda = h.real(name + "lmda", pos=True) if lmda is None else lmda
        self.delta = h.real(name + "delta", pos=True) if delta is None else delta
        self.mu = h.real(name + "mu", pos=True) if mu is None else mu
        params.setdefault("nburn", 0)
        params.setdefault("ngap", 1)
        params.setdefault("verbosity", 0)
        params.setdefault("nsamples", 2)
        params.setdefault("track", ["logposterior", "L2", "prior", "chain", "predictions"])
        self.params = self.mcmc.PxMCMCParams(lmda=self.lmda, delta=self.delta, mu=self.mu, complex=cplx, **params)
        args = [self.fwd, self.prior, self.params]
        self.bystander(cls, self.params, cplx, tune, -1)
        self.s = getattr(self.mcmc, cls)(*args, tune_delta=tune) if tune is not None else getattr(self.mcmc, cls)(*args)
        self.bystander(cls, self.params, cplx, tune, 1)

    def bystander(self, cls, p, cplx, tune, d):
        """Another sampler with settings of its own comes into being before and after the one under test."""
        ns = 5 if isinstance(p.nsamples, int) and p.nsamples == 4 else 4
        q = self.mcmc.PxMCMCParams(lmda=0.75, delta=0.0625, mu=3.0, complex=not cplx, nsamples=ns, nburn=7, ngap=5, verbosity=3,
                                   s=max(1, p.s + d) if isinstance(p.s, int) else 3, track=["chain"])
        kw = {} if tune is None else {"tune_delta": not tune}
        return getattr(self.mcmc, cls)(self.fwd, self.prior, q, **kw)

    def drift(self, X, delta=None):
        """Mean of the proposal from X: a gradient step on log posterior with the Moreau-smoothed prior."""
        d = self.delta if delta is None else delta
        return X - (d / self.lmda) * (X - self.prior.P.lookup(X)) - d * self.fwd.grad_at(X)

    def logpost(self, X):
        return -self.mu * self.prior.Q.lookup(X) - self.fwd.L2_at(X) / 2


def count_points(h, fwd, expected, label):
    """The model was evaluated at so many distinct points (numerically, points may coincide by accident)."""
    n = len(fwd.points)
    if h.mode == "conc" and n < expected and any(abs(w) < 1e-3 for w in h.draws("normal")):
        h.assume(False)
    h.true(label, n == expected)


def check_noise(h, label, steps, variances, cplx):
    """steps: list of vectors X' - drift(X), one per chain step.  Each must be a
    Gaussian of covariance variances[k] * I: an orthonormal combination of fresh
    standard normal draws, independent between steps and of everything else."""
    np = h.np
    if h.mode == "conc":
        w = h.draws("normal")
        m = len(w) // max(1, len(steps))
        h.true(label + ": one set of draws per step", len(w) == m * len(steps))
        for k, (r, v) in enumerate(zip(steps, variances)):
            ww = w[k * m:(k + 1) * m]
            h.eq(label + ": covariance", abs2(h, r), v * sum(x * x for x in ww))
        h.true(label + ": fresh draws each step", not h.repeats("normal"))
        return
    used_before = set()
    for r, v in zip(steps, variances):
        rows = []
        used = set()
        for x in r:
            lin = h.linear(x)
            if lin is None:
                h.fail(label + ": noise is additive", "the step is not affine in the Gaussian draws")
                return
            if cplx and len(lin) == 1:
                h.fail(label + ": complex noise", "no imaginary part")
                return
            if not cplx and len(lin) == 2:
                # a complex model makes the state complex; real parameters still get real noise
                rest, co = lin.pop()
                h.eq(label + ": mean", rest, 0 * rest)
                for v2 in co.values():
                    h.eq(label + ": real noise for real parameters", v2, 0 * v2)
            for rest, co in lin:
                h.eq(label + ": mean", rest, 0 * rest)
                rows.append(co)
                used |= set(co)
        for i, a in enumerate(rows):
            for j in range(i + 1):
                b = rows[j]
                s = 0
                for k in set(a) & set(b):
                    s = s + a[k] * b[k]
                h.eq(label + ": covariance", s, v if i == j else 0 * v)
        h.true(label + ": fresh draws each step", not (used & used_before))
        used_before |= used


def inner(h, a, b):
    """<a, b> = sum conj(a) b"""
    return h.np.sum(h.np.conj(a) * b)


def quadform(h, W, r):
    """r^H W r for a Hermitian matrix W (dense)."""
    np = h.np
    return np.real(np.sum(np.conj(r) * np.dot(W, r)))


class Script:
    """A model given by a table: at the k-th distinct point visited, predictions, gradient, proximal shift and
    prior value are the k-th entries.  Everything but start point, draws (and what the configuration leaves
    symbolic) is a number, so a long chain is one path with small expressions; accept/reject patterns are set
    through the prior values and a fixed uniform draw.  With flat=True gradient and proximal shift are zero, so that
    the proposal density is symmetric and cancels."""

    U = 0.7

    def __init__(self, h, n=1, nd=1, cplx=False, dcplx=False, flat=False, accepts=None, mu=1.0):
        import random
        self.h, self.nparams, self.nd, self.cplx, self.dcplx, self.flat = h, n, nd, cplx, dcplx, flat
        self.rnd = random.Random(4711 + n + nd)
        self.setting = "synthesis"
        self.data = self._vec(nd, dcplx)
        self.w = h.const([0.5 + 0.25 * i for i in range(nd)])
        self.invcov = h.sparse(h.np.diag(self.w))
        self.points, self.tab, self.keys = [], [], {}
        self.accepts = accepts
        self.mu = mu
        self.level = None

    def _num(self):
        return self.rnd.randint(-12, 12) / 8

    def _vec(self, n, z):
        return self.h.const([complex(self._num(), self._num()) if z else self._num() for _ in range(n)])

    def index(self, X):
        if self.h.mode == "sym":
            from symx.core import to_s
            els = [to_s(e) for e in X.raw.flat]
            key = tuple((e.re.key(), e.im.key() if e.im is not None else None) for e in els)
            i = self.keys.get(key)
            if i is not None:
                return i
        for i, p in enumerate(self.points):
            if _samevec(self.h, X, p):
                break
        else:
            i = len(self.points)
            self.points.append(X.copy())
            self.tab.append(self._entry(i))
        if self.h.mode == "sym":
            self.keys[key] = i
        return i

    def _entry(self, i):
        h = self.h
        f = self._vec(self.nd, self.dcplx) + i / 4096      # every point has predictions of its own
        g = self._vec(self.nparams, self.cplx)
        s = self._vec(self.nparams, self.cplx)
        if self.flat:
            g, s = 0 * g, 0 * s
        r = self.data - f
        l2 = h.np.sum(self.w * (h.np.real(r) * h.np.real(r) + h.np.imag(r) * h.np.imag(r)))
        l2 = float(l2)
        q = 3.0 + i / 4
        if self.accepts is not None:
            # log posterior relative to the current state; the fixed uniform draw has log(0.7) = -0.357
            if self.level is None:
                lp = -self.mu * q - l2 / 2
                self.level = lp
            else:
                a = self.accepts(i - 1)
                lp = self.level + ((0.25, -0.3, 2.0) if a else (-2.0, -0.4, -0.37))[i % 3]
                if a:
                    self.level = lp
            q = (-lp - l2 / 2) / self.mu
        return f, g, s, q, l2

    # forward operator
    def forward(self, X):
        return self.tab[self.index(X)][0].copy()

    def calc_gradg(self, preds):
        for f, g, *_ in self.tab:
            if _samevec(self.h, preds, f):
                return g.copy()
        raise RuntimeError("gradient at predictions that were never made")

    # prior
    def proxf(self, X):
        return X - self.tab[self.index(X)][2]

    def prior(self, X):
        return self.tab[self.index(X)][3]


class Marathon(Script):
    """A script whose draws are numbers too (but the last ones), for runs of more than a thousand iterations."""

    def __init__(self, h, *a, upto=True, **k):
        super().__init__(h, *a, **k)
        h.fix_normal(upto)
        self.byx, self.byf = {}, {}

    def _key(self, X):
        if self.h.mode == "sym":
            from symx.core import to_s
            return tuple(tuple((m, round(float(v), 10)) for m, v in p.key()) for e in X.raw.flat for p in (to_s(e).re, to_s(e).im) if p is not None)
        return tuple(round(float(v), 10) for e in X for v in (e.real, e.imag))

    def index(self, X):
        k = self._key(X)
        if k not in self.byx:
            self.byx[k] = len(self.points)
            self.points.append(X.copy())
            self.tab.append(self._entry(self.byx[k]))
            self.byf[self._key(self.tab[-1][0])] = self.byx[k]
        return self.byx[k]

    def calc_gradg(self, preds):
        k = self._key(preds)
        if k not in self.byf:
            raise RuntimeError("gradient at predictions that were never made")
        return self.tab[self.byf[k]][1].copy()


def scripted(h, cls, script, **k):
    """Sampler on a script; returns the Setup with fwd = prior = the script."""
    if script.accepts is not None:
        h.fix_uniform(script.U)
    st = Setup(h, cls, fwd=script, prior=script, cplx=script.cplx, **k)
    st.script = script
    return st


def script_mean(st, i, delta=None):
    """Drift step from the i-th point."""
    f, g, s, q, l2 = st.script.tab[i]
    d = st.delta if delta is None else delta
    return st.script.points[i] - (d / st.lmda) * s - d * g


def script_check_saved(h, st, visited, nburn, ngap, ns):
    """Everything saved belongs to the state visited at the right iteration; visited[k] = index of the point
    occupied after iteration k."""
    step = max(ngap, 1)
    sc, s = st.script, st.s
    have = [name for t, name in TRACKED.items() if t in st.params.track]
    for name in TRACKED.values():
        h.true("saved exactly when tracked", hasattr(s, name) == (name in have))
    for name in have:
        h.true("all samples saved", getattr(s, name).shape[0] == ns)
    idx = [visited[nburn + j * step] for j in range(ns)]
    for j, i in enumerate(idx):
        f, g, sh, q, l2 = sc.tab[i]
        if "chain" in have:
            h.eq("saved sample is the right state", s.chain[j], sc.points[i])
        if "preds" in have:
            h.eq("saved predictions", s.preds[j], f)
    if "L2s" in have:
        h.eq("saved L2", s.L2s, h.const([float(sc.tab[i][4]) for i in idx]))
    if "priors" in have:
        h.eq("saved priors", s.priors, h.const([float(sc.tab[i][3]) for i in idx]))
    if "logPi" in have:
        h.eq("saved log posteriors", s.logPi, h.const([-sc.tab[i][3] * float(sc.mu) - float(sc.tab[i][4]) / 2 for i in idx]))
    double_precision(h, s)


TRACKED = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "chain": "chain", "predictions": "preds"}


def double_precision(h, s):
    """What a run saves is held in double precision."""
    for name in TRACKED.values():
        if hasattr(s, name):
            dt = getattr(s, name).dtype
            h.true(f"{name} is kept in double precision", dt.kind in "fc" and dt.itemsize >= (16 if dt.kind == "c" else 8))


def script_pattern(name):
    """Accept/reject patterns of long PxMALA runs."""
    import random
    if name == "accept":
        return lambda k: True
    if name == "reject":
        return lambda k: False
    if name == "alternate":
        return lambda k: k % 2 == 0
    if name == "runs":
        return lambda k: (k // 7) % 2 == 1
    r = random.Random(99)
    bits = [r.random() < 0.5 for _ in range(2000)]
    return lambda k: bits[k]


def script_pxmala(h, c, tune):
    """A long PxMALA run with a given accept/reject pattern; returns (setup, start, total iterations, accepted flags,
    index of the point occupied after each iteration).  Point 0 is the start, point k+1 the k-th proposal."""
    z, nb, ng, ns = c.get("complex", False), c["nburn"], c["ngap"], c["ns"]
    pat = script_pattern(c["pattern"])
    sc = (Marathon if c.get("marathon") else Script)(h, c.get("n", 1), 2, z, z, flat=True, accepts=pat)
    st = scripted(h, "PxMALA", sc, mu=1.0, nsamples=ns, nburn=nb, ngap=ng, verbosity=c.get("verbosity", 0), tune=tune,
                  delta=c.get("delta"), lmda=c.get("lmda"), **({"track": list(c["track"])} if "track" in c else {}))
    x0 = h.vec("x", c.get("n", 1), cplx=z)
    st.s.run(x0.copy())
    total = nb + (ns - 1) * max(ng, 1) + 1
    h.true("one proposal per iteration", len(sc.points) == total + 1)
    h.eq("starts at the start point", sc.points[0], x0)
    flags = [1 if pat(k) else 0 for k in range(total)]
    visited, cur = [], 0
    for k, a in enumerate(flags):
        cur = k + 1 if a else cur
        visited.append(cur)
    return st, x0, total, flags, visited
