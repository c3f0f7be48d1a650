"""Plots show the data they are given."""
import contextlib
import math
import types

BOUNDS = ("maps of bandlimit 1-5, every pixel value symbolic; chosen masks; colour limits symbolic; without oversampling (the oversampling step for "
          "target bandlimits up to 6, and the default one at chosen pixels); up to 3 directions; traces of 1-6 samples with every ordering and ties, 70 "
          "and 130 in a known order")
ASSUMPTIONS = ["matplotlib and the Mollweide projection draw the array they are handed (stand-ins record it; replays read it back from the real figure, with the projection replaced by the identity)"]


class Obj:
    """Answers anything, does nothing."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Obj()

    def __call__(self, *a, **k):
        return Obj()

    def __getitem__(self, i):
        return Obj()


class Axes(Obj):
    def __init__(self):
        self.__dict__.update(images=[], lines=[], vlines=[], title=None)

    def imshow(self, X, cmap=None, *, vmin=None, vmax=None, origin=None, norm=None, **k):
        self.images.append(dict(map=X, vmin=vmin, vmax=vmax, origin=origin))
        return Obj()

    def plot(self, *a, **k):
        self.lines.append(a[-1] if len(a) == 1 or not isinstance(a[-1], str) else a[-2])
        return [Obj()]

    def axvline(self, x=0, *a, **k):
        self.vlines.append(x)
        return Obj()

    def set_title(self, t, **k):
        self.__dict__["title"] = t

    def __getattr__(self, n):
        return Obj.__getattr__(self, n)


class Figure(Obj):
    def __init__(self):
        self.__dict__.update(axes=[])

    def _new(self):
        a = Axes()
        self.axes.append(a)
        return a

    def add_subplot(self, *a, **k):
        return self._new()

    def add_axes(self, *a, **k):
        return self._new()

    def subplots(self, nrows=1, ncols=1, **k):
        n = nrows * ncols
        return self._new() if n == 1 else [self._new() for _ in range(n)]

    def add_gridspec(self, nrows=1, ncols=1, **k):
        f = self

        class G(Obj):
            def subplots(self, **k):
                return f.subplots(nrows, ncols)

            def __getitem__(self, i):
                return Obj()
        return G()


class Plt(types.ModuleType):
    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.cur, self.slots = None, {}

    def figure(self, *a, **k):
        self.cur, self.slots = Figure(), {}
        return self.cur

    def gcf(self):
        return self.cur

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols)

    def subplot(self, *a, **k):
        if a not in self.slots:
            self.slots[a] = self.cur._new()
        self.ax = self.slots[a]
        return self.ax

    def gca(self):
        return self.ax

    def plot(self, *a, **k):
        return self.ax.plot(*a, **k)

    def axvline(self, *a, **k):
        return self.ax.axvline(*a, **k)

    def imshow(self, *a, **k):
        return self.ax.imshow(*a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Obj()


def stubs():
    from symx import shims
    plt = Plt()
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = plt
    mpl.__getattr__ = lambda n: Obj()
    ss = types.ModuleType("pyssht")
    ss.mollweide_projection = lambda f, L, *a, **k: (f, None)
    ss.__getattr__ = lambda n: getattr(shims.MODS["pyssht"], n)
    return {"matplotlib": mpl, "matplotlib.pyplot": plt, "pyssht": ss, "matplotlib.cm": types.ModuleType("matplotlib.cm")}


@contextlib.contextmanager
def world(h):
    """The plotting module with recording stand-ins, or the real one with the projection taken out."""
    if h.mode == "sym":
        yield h.mod("plotting")
        return
    import matplotlib.pyplot as plt
    import pyssht
    m = h.mod("plotting")
    old = pyssht.mollweide_projection
    pyssht.mollweide_projection = lambda f, L, *a, **k: (f, None)
    try:
        yield m
    finally:
        pyssht.mollweide_projection = old
        plt.close("all")


def drawn(h, fig):
    """The map a figure shows: array, colour limits, title."""
    if h.mode == "sym":
        ims = [(i, a) for a in fig.axes for i in a.images]
        h.true("one image", len(ims) == 1)
        i, a = ims[0]
        return i["map"], i["vmin"], i["vmax"], a.title
    ims = [(i, a) for a in fig.axes for i in a.images if i.origin == "lower"]
    h.true("one image", len(ims) >= 1)
    i, a = ims[0]
    import numpy
    m = numpy.ma.filled(i.get_array(), numpy.nan)
    return m, i.get_clim()[0], i.get_clim()[1], a.get_title()


def traces(h, fig):
    """Lines and vertical markers per panel."""
    if h.mode == "sym":
        return [(a.lines, a.vlines) for a in fig.axes]
    return [([a.lines[0].get_ydata()], [ln.get_xdata()[0] for ln in a.lines[1:]]) for a in fig.axes]


def single(h):
    c = h.cfg
    L = c["L"]
    f = h.mat("f", L, 2 * L - 1)
    keep = f.copy()
    kw = dict(oversample=False, cbar=c.get("cbar", True))
    mask = None
    if c.get("mask"):
        mask = h.const(c["mask"], dtype=bool)
        kw["mask"] = mask
    lo = hi = None
    if c.get("limits"):
        if c["limits"] in (True, "lo"):
            lo = kw["vmin"] = h.real("vmin", -8, 0)
        if c["limits"] in (True, "hi"):
            hi = kw["vmax"] = h.real("vmax", 1, 8)
    if c.get("centre0"):
        kw["centre0"] = True
    with world(h) as P:
        fig = P.plot_map(f, title="t", **kw)
        m, vmin, vmax, title = drawn(h, fig)
        h.true("title", title == "t")
        h.true("size", m.shape == f.shape)
        for i in range(L):
            for j in range(2 * L - 1):
                if mask is not None and c["mask"][i][j]:
                    h.true("masked pixels are blank", bool(h.np.isnan(m[i, j])))
                else:
                    h.eq("pixel shows its value", m[i, j], keep[i, j])
        if c.get("centre0"):
            big = h.np.max(h.np.abs(keep))
            if mask is None:
                h.eq("colour scale centred: top", vmax, big)
            else:
                for i in range(L):
                    for j in range(2 * L - 1):
                        if not c["mask"][i][j]:
                            h.true("colour scale covers what is shown", (keep[i, j] <= vmax + 1e-12) & (keep[i, j] >= -vmax - 1e-12))
            h.eq("colour scale centred: bottom", vmin, -vmax)
        elif c.get("limits"):
            if lo is not None:
                h.eq("lower limit", vmin, lo)
            if hi is not None:
                h.eq("upper limit", vmax, hi)
        elif h.mode == "sym":
            h.true("default limits", vmin is None and vmax is None)
        h.eq("map left alone", f, keep)


def wavelets(h):
    c = h.cfg
    L, B, J = c["L"], c["B"], c["J"]
    f = h.mat("f", L, 2 * L - 1)
    keep = f.copy()
    N = c.get("dirs", 1)
    wav, scal = h.lib("pys2let").analysis_px2wav(f.flatten().astype(complex), B=B, L=L, J_min=J, N=N, spin=0, upsample=0)
    bls, n = [min(math.ceil(B ** J), L)], wav.shape[0]
    scale = [0]
    while sum(b * (2 * b - 1) for b in bls[1:]) < n:
        scale += [scale[-1] + 1] * (2 * N - 1)
        bls += [min(math.ceil(B ** (J + scale[-1])), L)] * (2 * N - 1)
    kw = dict(dirs=N) if N > 1 else {}
    kw.update({} if c.get("same", True) else dict(same_scale=False))
    if c.get("vmin"):
        kw["vmin"] = h.real("vmin", -8, 0)
    if c.get("vmax"):
        kw["vmax"] = h.real("vmax", 1, 8)
    if c.get("title"):
        kw["title"] = c["title"]
    with world(h) as P:
        figs = P.plot_wavelet_maps(f, L, B, J, oversample=False, **kw)
        h.true("one figure per scale and orientation", len(figs) == len(bls))
        start, tops = 0, []
        for k, (fig, bl) in enumerate(zip(figs, bls)):
            m, vmin, vmax, title = drawn(h, fig)
            h.true("size of the map", m.shape == (bl, 2 * bl - 1))
            n = bl * (2 * bl - 1)
            part = scal if k == 0 else wav[start:start + n]
            start += n if k else 0
            h.eq("scale shows its own coefficients", m.reshape((n,)), h.np.real(part), scale=10.0)
            if c.get("vmin"):
                h.eq("lower limit asked for", vmin, kw["vmin"])
            if c.get("vmax") and (k == 0 or not c.get("same", True)):
                h.eq("upper limit asked for", vmax, kw["vmax"])
            if k:
                tops.append(vmax)
                h.true("title names the scale", str(scale[k]) in title and (c.get("title") or "") in title)
        if c.get("same", True):
            for t in tops[1:]:
                h.eq("common upper limit", t, tops[0])
            if tops:
                h.eq("upper limit is the largest wavelet coefficient", tops[0], h.np.max(h.np.real(wav)), scale=10.0)
        h.eq("map left alone", f, keep)


def oversample(h):
    """Oversampling evaluates the same band-limited signal on a finer grid."""
    c = h.cfg
    L, M = c["L"], c["M"]
    with world(h) as P:
        if not hasattr(P, "_oversample"):
            return
        np, ss = h.np, h.lib("pyssht")
        flm = np.zeros(L * L, dtype=complex)
        for l in range(L):
            flm[l * l + l] = h.real(f"f{l}_0") + 0j
            for m in range(1, l + 1):
                v = h.cplx(f"f{l}_{m}")
                flm[l * l + l + m] = v
                flm[l * l + l - m] = (-1) ** m * np.conj(v)
        f = np.real(ss.inverse(flm, L, Spin=0)).copy()
        big = np.zeros(M * M, dtype=complex)
        big[:L * L] = flm
        h.eq("same signal, finer grid", P._oversample(f, M), np.real(ss.inverse(big, M, Spin=0)), scale=100.0)


def finer(h):
    """The plot with oversampling (the default): the same signal at the finer grid, blanked by a mask of that grid."""
    c = h.cfg
    L, M = 2, 256
    np, ss = h.np, h.lib("pyssht")
    a, b, v = h.real("a"), h.real("b"), h.cplx("v")
    flm = h.seq([a + 0j, -np.conj(v), b + 0j, v], complex)
    f = np.real(ss.inverse(flm, L, Spin=0)).copy()
    keep = f.copy()
    kw = {}
    mask = None
    if c.get("mask"):
        import numpy as rnp
        mask = rnp.zeros((M, 2 * M - 1), dtype=bool)
        mask[40:90, 7:300] = True
        mask[200, 3] = True
        kw["mask"] = h.const(mask)
    with world(h) as P:
        fig = P.plot_map(f, **kw)
        m, vmin, vmax, title = drawn(h, fig)
        h.true("finer grid", m.shape == (M, 2 * M - 1))
        for t, p in ((0, 0), (0, 500), (40, 7), (39, 7), (89, 299), (90, 300), (200, 3), (200, 4), (255, 510), (128, 255), (17, 401)):
            if mask is not None and mask[t, p]:
                h.true("masked pixels are blank", bool(np.isnan(m[t, p])))
                continue
            th, ph = math.pi * (2 * t + 1) / (2 * M - 1), 2 * math.pi * p / (2 * M - 1)
            k1 = math.sqrt(3 / (8 * math.pi)) * math.sin(th)
            want = a * math.sqrt(1 / (4 * math.pi)) + b * (math.sqrt(3 / (4 * math.pi)) * math.cos(th)) - 2 * k1 * (np.real(v) * math.cos(ph) - np.imag(v) * math.sin(ph))
            h.eq("same signal on the finer grid", m[t, p], want, tol=1e-8, scale=10.0)
        h.eq("map left alone", f, keep)


def evolution(h):
    c = h.cfg
    n = c["n"]
    lp, l2, l1 = h.vec("p", n, lo=-8, hi=-0.1), h.vec("q", n, lo=0.1, hi=8), h.vec("r", n, lo=0.1, hi=8)
    if "top" in c:
        # in a known order, this one the highest
        cur = lp[0]
        order = [i for i in sorted(range(n), key=lambda i: (17 * i + 3) % n) if i != c["top"]] + [c["top"]]
        for i in order:
            lp[i] = cur
            cur = cur + l2[i]
    for i, j in c.get("ties", []):
        lp[j] = lp[i]
    a, b, d = lp.copy(), l2.copy(), l1.copy()
    with world(h) as P:
        fig = P.plot_evolution(lp, l2, l1)
        ts = traces(h, fig)
        h.true("three panels", len(ts) == 3)
        for (lines, marks), want in zip(ts, (-a, b, d)):
            h.eq("panel shows its trace", lines[0], want)
            h.true("one marker", len(marks) == 1)
            x = marks[0]
            x = x[0] if getattr(x, "shape", ()) not in ((), None) else x
            k = int(x)
            h.true("marker inside the run", 0 <= k < n)
            for i in range(n):
                h.true("marker is at a sample of highest posterior", a[k] >= a[i])
        h.eq("log posteriors left alone", lp, a)


def sample(h):
    c = h.cfg
    X = h.vec("X", c["n"], cplx=c["complex"])
    with world(h) as P:
        ts = traces(h, P.plot_chain_sample(X.copy()))
        h.true("two panels", len(ts) == 2)
        h.eq("real part", ts[0][0][0], h.np.real(X))
        h.eq("imaginary part", ts[1][0][0], h.np.imag(X))


_O = dict(extra=stubs)
HISTORY = True
HARNESSES = {
    "single": dict(fn=single, opts=_O, quick=[dict(L=2), dict(L=3, mask=[[1, 0, 0, 1, 0], [0, 0, 0, 0, 0], [0, 1, 1, 0, 1]]), dict(L=2, limits=True), dict(L=2, centre0=True, cbar=False),
                                              dict(L=2, centre0=True, limits=True), dict(L=2, mask=[[0, 0, 0], [0, 0, 0]], cbar=False), dict(L=2, limits="lo"), dict(L=2, limits="hi", cbar=False),
                                              dict(L=2, mask=[[0, 1, 0], [1, 0, 0]], centre0=True), dict(L=2, mask=[[1, 0, 1], [0, 1, 0]], limits=True), dict(L=5), dict(L=1),
                                              dict(L=3, centre0=True), dict(L=2, mask=[[0, 1, 0], [1, 0, 1]], centre0=True, limits=True), dict(L=2, mask=[[1, 1, 1], [0, 0, 0]])]),
    "wavelets": dict(fn=wavelets, opts=_O, quick=[dict(L=3, B=3, J=0), dict(L=3, B=2, J=1, same=False), dict(L=2, B=2, J=0, title="T"), dict(L=4, B=2, J=1, same=False, title="x"), dict(L=3, B=3, J=1, vmin=True, same=False, vmax=True),
                                                  dict(L=3, B=3, J=0, vmin=True), dict(L=3, B=2, J=2, same=False), dict(L=5, B=2, J=1, same=False), dict(L=4, B=1.5, J=2, same=False, title="y z"), dict(L=3, B=2, J=0, dirs=2, same=False), dict(L=3, B=3, J=0, dirs=3, same=False, title="d"), dict(L=2, B=2, J=0, dirs=2), dict(L=3, B=1.3, J=0, same=False), dict(L=4, B=1.5, J=0, same=False)],
                     thorough=[dict(L=4, B=2, J=1), dict(L=5, B=2, J=1, same=False)]),
    "oversample": dict(fn=oversample, opts=_O, quick=[dict(L=2, M=4), dict(L=3, M=3), dict(L=3, M=5), dict(L=4, M=6)], thorough=[dict(L=5, M=9)]),
    "finer": dict(fn=finer, opts=_O, quick=[{}, dict(mask=True)]),
    "evolution": dict(fn=evolution, opts=_O, quick=[dict(n=2), dict(n=3), dict(n=3, ties=[[0, 2]]), dict(n=4, ties=[[0, 1], [2, 3]]), dict(n=1), dict(n=6), dict(n=70, top=62), dict(n=130, top=128)], thorough=[dict(n=8)]),
    "sample": dict(fn=sample, opts=_O, quick=[dict(n=2, complex=True), dict(n=3, complex=False), dict(n=1, complex=True), dict(n=20, complex=True)]),
}
PREIMPORT = ("matplotlib.pyplot",)
