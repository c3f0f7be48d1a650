"""A saved run holds what the sampler recorded and the parameters it ran with."""
import os
import shutil
import tempfile

from .common import Script, Setup, script_pxmala, scripted

BOUNDS = ("all three samplers, real and complex, 1-2 parameters, 1-3 saved samples, every subset of the five trackable variables (symbolic) and every "
          "accept/reject pattern; recorded runs of up to 140 samples and 40 parameters; recorded arrays of up to 2300 iterations and 4800 chain entries with a few arbitrary entries; every recorded value, parameter and extra symbolic; one or two "
          "saves, same or different file name")
NAMES = {"logposterior": ("logposterior", "logPi"), "predictions": ("predictions", "preds"), "chain": ("chain", "chain"), "L2": ("L2s", "L2s"), "prior": ("priors", "priors")}
EXTRA = {"acceptances": "acceptance_trace", "deltas": "deltas_trace"}


class Store:
    """A scratch directory of its own, or the symbolic file system."""

    def __init__(self, h):
        self.h = h
        self.dir = "/scratch" if h.mode == "sym" else tempfile.mkdtemp(prefix="symx-h5-")

    def read(self, name):
        path = os.path.join(self.dir, name)
        if self.h.mode == "sym":
            from symx.shims import FakeFile
            if path not in FakeFile.files:
                self.h.fail("file is written where asked", f"no file {name}")
                return {}, {}
            f = FakeFile.files[path]
            self.h.true("file is closed", f.closed)
            return dict(f.items_), dict(f.attrs)
        import h5py
        if not os.path.exists(path):
            self.h.fail("file is written where asked", f"no file {name}")
        with h5py.File(path, "r") as f:
            return {k: f[k][()] for k in f.keys()}, dict(f.attrs)

    def files(self):
        if self.h.mode == "sym":
            from symx.shims import FakeFile
            return sorted(os.path.relpath(p, self.dir) for p in FakeFile.files)
        return sorted(os.listdir(self.dir))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.h.mode != "sym":
            shutil.rmtree(self.dir, ignore_errors=True)


def sampler(h, c, track, name="", **kw):
    cls = c["cls"]
    if cls == "SKROCK":
        kw["s"] = 2
    z = c["complex"]
    st = Setup(h, cls, n=c["n"], nd=c["n"], cplx=z, dcplx=z, name=name, tune=c.get("tune") if cls == "PxMALA" else None, nsamples=c["k"],
               nburn=c.get("nburn", 0), ngap=c.get("ngap", 1), track=track, **kw)
    st.s.run(h.vec(name + "x", c["n"], cplx=z))
    return st


def same(h, label, a, v):
    if isinstance(v, (list, tuple)):
        h.true(label, [x.decode() if isinstance(x, bytes) else str(x) for x in list(a)] == [str(x) for x in v])
    elif isinstance(v, str):
        h.true(label, (a.decode() if isinstance(a, bytes) else a) == v)
    elif isinstance(v, bool):
        h.true(label, bool(a) == v)
    else:
        h.eq(label, a, v)


def compare(h, st, ds, at, track, extra):
    s = st.s
    want = [NAMES[t][0] for t in track] + [d for d, a in EXTRA.items() if hasattr(s, a)]
    h.true("exactly the recorded variables are saved", sorted(ds) == sorted(want))
    for t in track:
        d, a = NAMES[t]
        v = getattr(s, a)
        h.eq(d, ds[d], v, tol=0.0)
        h.true(d + ": kind of numbers kept", h.np.iscomplexobj(ds[d]) == h.np.iscomplexobj(v) and ds[d].dtype.itemsize >= 8)
    for d, a in EXTRA.items():
        if hasattr(s, a):
            v = getattr(s, a)
            h.eq(d, ds[d], h.seq([x * 1 for x in v]) if len(v) else ds[d], tol=0.0)
            h.true(d + ": length", len(ds[d]) == len(v))
            h.true(d + ": full precision", ds[d].dtype.itemsize >= 8 or d == "acceptances")
    want = dict(vars(st.params), **extra)
    h.true("all parameters and extras are saved", sorted(at) == sorted(want))
    for k, v in want.items():
        same(h, "attribute " + k, at[k], v)


def save(h):
    c = h.cfg
    track = [t for t in NAMES if h.flag("track_" + t)] if c.get("subset") else list(NAMES)
    st = sampler(h, c, track)
    extra = {"time": h.real("time"), "comment": "run", "L": 3} if c.get("extra") else {}
    if c.get("extra") == "many":
        extra.update(B=h.real("B"), weights=h.vec("wts", 4), empty="", zero=0, none_found=False, found=True, big=12345678901, neg=-2.5, shear=h.vec("sh", 2, cplx=True),
                     counts=h.const([3, 1, 2], dtype=int))
    with Store(h) as d:
        args = [c["name"]] if "name" in c else []
        h.mod("saving").save_mcmc(st.s, st.params, d.dir + c.get("slash", ""), *args, **extra)
        name = c.get("name", "outputs") + ".hdf5"
        h.true("one file", d.files() == [name])
        ds, at = d.read(name)
        compare(h, st, ds, at, track, extra)


def twice(h):
    """Saving again under the same name replaces the file; another name leaves it alone."""
    c = h.cfg
    first, second = ["chain", "L2", "predictions"], ["chain", "logposterior"]
    a, b = sampler(h, c, first, "a"), sampler(h, dict(c, k=1), second, "b")
    with Store(h) as d:
        sv = h.mod("saving").save_mcmc
        sv(a.s, a.params, d.dir, "one", note="first")
        h.true("one file", d.files() == ["one.hdf5"])
        if c["again"]:
            extra = {"time": h.real("time")} if c.get("extra") else {}
            sv(b.s, b.params, d.dir, "one", **extra)
            h.true("still one file", d.files() == ["one.hdf5"])
            ds, at = d.read("one.hdf5")
            compare(h, b, ds, at, second, extra)
        else:
            sv(b.s, b.params, d.dir, "two")
            ds, at = d.read("one.hdf5")
            compare(h, a, ds, at, first, {"note": "first"})
            ds, at = d.read("two.hdf5")
            compare(h, b, ds, at, second, {})


def long(h):
    """Long runs: every iteration's acceptance and step size, every saved sample."""
    c = h.cfg
    if c["cls"] == "PxMALA":
        st = script_pxmala(h, c, c["tune"])[0]
    else:
        sc = Script(h, c["n"], 3, c["complex"], c["complex"])
        st = scripted(h, c["cls"], sc, mu=1.0, nsamples=c["ns"], nburn=c["nburn"], ngap=c["ngap"], verbosity=0)
        st.s.run(h.vec("x", c["n"], cplx=c["complex"]))
    with Store(h) as d:
        h.mod("saving").save_mcmc(st.s, st.params, d.dir, "long")
        ds, at = d.read("long.hdf5")
        compare(h, st, ds, at, list(st.params.track), {})


class Recorded:
    """A sampler that has run: what it recorded, and nothing else."""


def big(h):
    """Large recorded arrays (numbers, but for a few arbitrary entries anywhere in them)."""
    c = h.cfg
    ns, n, z = c["ns"], c["n"], c["complex"]
    st, s = Recorded(), Recorded()
    val = lambda i: ((7 * i) % 1001 - 500) / 2.0 ** 20
    mk = lambda m, f=lambda i: val(i): [f(i) for i in range(m)]
    zv = lambda i: complex(val(i), val(3 * i + 1))
    s.logPi, s.L2s, s.priors = (h.const(mk(ns)) for _ in range(3))
    s.chain = h.const([[(zv if z else val)(i * n + j) for j in range(n)] for i in range(ns)])
    s.preds = h.const([[(zv if z else val)(i * 5 + j) for j in range(5)] for i in range(ns)])
    s.logPi[ns - 1], s.L2s[0], s.priors[ns // 2] = h.real("a"), h.real("b"), h.real("c")
    for q, k in enumerate((0, ns // 3, ns - 1)):
        s.chain[k, (5 * q + 1) % n] = h.cplx(f"x{q}") if z else h.real(f"x{q}")
        s.preds[k, q] = h.cplx(f"p{q}") if z else h.real(f"p{q}")
    s.acceptance_trace = [1 if (i * i) % 7 < 3 else 0 for i in range(c["total"])]
    s.deltas_trace = [(1 + i % 13) / 2.0 ** 24 for i in range(c["total"])] + [h.real("d", pos=True)]
    P = h.mod("mcmc").PxMCMCParams
    st.s, st.params = s, P(lmda=h.real("lmda", pos=True), delta=h.real("delta", pos=True), mu=h.real("mu", pos=True), nsamples=ns, nburn=c["total"] - ns, ngap=1,
                           complex=z, verbosity=0, track=list(NAMES))
    extra = {"note": "  two\n lines ", "delta": h.real("other")}
    with Store(h) as d:
        h.mod("saving").save_mcmc(s, st.params, d.dir, "big", **extra)
        ds, at = d.read("big.hdf5")
        compare(h, st, ds, at, list(NAMES), extra)


def params(h):
    """The saved parameters are those the caller set, even after tuning changed the sampler's own step size."""
    c = h.cfg
    st = sampler(h, c, ["chain"])
    before = h.real("other", pos=True)
    st.s.delta = before
    with Store(h) as d:
        h.mod("saving").save_mcmc(st.s, st.params, d.dir)
        ds, at = d.read("outputs.hdf5")
        h.eq("step size asked for", at["delta"], st.delta)
        h.eq("regularisation", at["mu"], st.mu)
        h.eq("prox parameter", at["lmda"], st.lmda)


def _c(cls, k=2, n=1, z=False, **o):
    return dict(cls=cls, k=k, n=n, complex=z, **o)


HARNESSES = {
    "save": dict(fn=save, quick=[_c("MYULA", subset=True), _c("SKROCK", 2, 2, True, subset=True, name="run1"), _c("MYULA", 3, 2, True, extra=True),
                                 _c("PxMALA", 2, 1, tune=True, extra=True), _c("PxMALA", 2, 1, True, tune=False, name="b"), _c("MYULA", 1, 2, nburn=2, ngap=2),
                                 _c("PxMALA", 1, 1, tune=True, nburn=1), _c("MYULA", 2, 1, extra="many"), _c("PxMALA", 1, 1, tune=False, extra="many", name="run.v1"),
                                 _c("MYULA", 2, 3, name="a b_c-1", slash="/"), _c("MYULA", 12, 1, name="outputs.hdf5"), _c("SKROCK", 5, 1, extra=True, ngap=2), _c("MYULA", 3, 1, z=True, subset=True, nburn=1)],
                 thorough=[_c("PxMALA", 2, 1, tune=True, subset=True), _c("PxMALA", 3, 1, tune=True)]),
    "twice": dict(fn=twice, quick=[_c("MYULA", again=r, z=z) for r in (False, True) for z in (False, True)] + [_c("MYULA", again=True, extra=True), _c("SKROCK", again=True, extra=True)]),
    "long": dict(fn=long, quick=[dict(cls="PxMALA", ns=s, nburn=b, ngap=g, complex=z, pattern=p, tune=t, n=2) for s, b, g, z, p, t in
                                 ((70, 3, 1, False, "mixed", True), (20, 30, 2, True, "runs", False), (35, 2, 1, False, "alternate", True))] +
                 [dict(cls="MYULA", ns=140, nburn=0, ngap=1, complex=False, n=2), dict(cls="SKROCK", ns=10, nburn=30, ngap=2, complex=True, n=40)]),
    "big": dict(fn=big, quick=[dict(ns=400, n=12, total=1300, complex=False), dict(ns=120, n=40, total=150, complex=True), dict(ns=1200, n=2, total=2300, complex=False)]),
    "params": dict(fn=params, quick=[_c("PxMALA", 1, 1, tune=True), _c("MYULA")]),
}
