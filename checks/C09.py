"""Where a chain starts."""
from .common import Setup

BOUNDS = "parameter dimension 1-3 and 5-8, real and complex; all three samplers; start points (also integers, zeros, views), draws and operators arbitrary; wrong sizes 0..4 around the right one"


def _build(h, c, **k):
    cls = c["cls"]
    kw = {"s": 1} if cls == "SKROCK" else {}
    return Setup(h, cls, n=c["n"], nd=1, cplx=c["complex"], tune=False if cls == "PxMALA" else None, nsamples=1, **kw, **k)


def given(h):
    """A given start point is used as it is: the model is first evaluated there."""
    c = h.cfg
    st = _build(h, c)
    if c.get("ints"):
        x0 = h.const([(7 * i + 3) % 11 - 5 + (2 ** 26 + 1) * (i == 4) for i in range(c["n"])], dtype=int)
    elif c.get("zeros"):
        x0 = h.const([0.0] * c["n"])
    else:
        x0 = h.vec("x", c["n"], cplx=c.get("xcomplex", c["complex"]))
    x = x0.copy()
    if c.get("view") == "reversed":
        x = x[::-1].copy()[::-1]
    elif c.get("view") == "strided":
        x = h.np.concatenate([[v, 0 * v] for v in x])[::2]
    st.s.run(x)
    h.eq("chain starts at the given point", st.fwd.points[0], x0)
    h.true("no random start point is drawn", h.ndraws("laplace") == 0)


def again(h):
    """Each run starts where it is told to, whatever ran before."""
    c = h.cfg
    st = _build(h, c)
    x0, x1 = h.vec("x", c["n"], cplx=c["complex"]), h.vec("y", c["n"], cplx=c["complex"])
    st.s.run(x0.copy())
    k = len(st.fwd.points)
    st.s.run(x1.copy())
    h.eq("second run starts at its own point", st.fwd.points[k], x1)
    k = len(st.fwd.points)
    st.s.run()
    d = h.draws("laplace")
    h.true("one draw per real coordinate", len(d) == c["n"] * (2 if c["complex"] else 1))
    x = st.fwd.points[k]
    want = h.seq(d[:c["n"]])
    h.eq("a run without a start point draws one", h.np.sum(h.np.real(x) ** 2) + h.np.sum(h.np.imag(x) ** 2), sum(w * w for w in d))


def drawn(h):
    """Without a start point: independent standard Laplace entries (real and imaginary parts)."""
    c = h.cfg
    n, z = c["n"], c["complex"]
    st = _build(h, c)
    st.s.run()
    x0 = st.fwd.points[0]
    h.true("start point has the right size", x0.shape == (n,))
    d = h.draws("laplace")
    h.true("one draw per real coordinate", len(d) == (2 * n if z else n))
    parts = [h.np.real(v) for v in x0] + ([h.np.imag(v) for v in x0] if z else [])
    used = []
    for p in parts:
        # each coordinate is one of the draws (up to sign), none used twice
        if h.mode == "conc":
            m = [i for i, w in enumerate(d) if abs(abs(p) - abs(w)) < 1e-12 and i not in used]
        else:
            lin = h.linear(p, "laplace")
            m = []
            if lin:
                rest, co = lin[0]
                if len(co) == 1:
                    i = next(iter(co))
                    i = [q for q, (a, t) in enumerate(h.c.draws) if t == "laplace"].index(i) if i not in range(len(d)) else i
                    h.eq("coordinate is a draw", rest, 0 * rest)
                    v = list(co.values())[0]
                    h.eq("coordinate is a standard draw", v * v, 0 * v + 1)
                    m = [list(co)[0]]
        h.true("coordinate is one fresh standard Laplace draw", bool(m) and m[0] not in used)
        used.append(m[0])


def twice(h):
    """The start points drawn by separate runs and samplers are independent of one another."""
    c = h.cfg
    st = _build(h, c)
    seen = []
    for r in range(3):
        k = len(st.fwd.points)
        st.s.run()
        x = st.fwd.points[k]
        seen += [h.np.real(v) for v in x] + ([h.np.imag(v) for v in x] if c["complex"] else [])
        if r == 1:
            st = _build(h, c, name="second")
    if h.mode == "conc":
        for i, a in enumerate(seen):
            h.true("start points of separate runs are independent", all(abs(abs(a) - abs(b)) > 1e-12 for b in seen[:i]))
        return
    used = set()
    for p in seen:
        lin = h.linear(p, "laplace")
        h.true("coordinate is one fresh standard Laplace draw", bool(lin) and len(lin[0][1]) == 1)
        i = next(iter(lin[0][1]))
        if i in used:
            h.fail("start points of separate runs are independent", "a draw is used twice")
            return
        used.add(i)


def rejected(h):
    """Anything but a one-dimensional array of the right size is refused."""
    c = h.cfg
    n = c["n"]
    st = _build(h, c)
    if c["bad"] == "size":
        for m in range(0, n + 3):
            if m != n:
                h.raises(f"array of size {m} for {n} parameters", ValueError, st.s.run, h.vec(f"v{m}_", m))
    elif c["bad"] == "list":
        h.raises("a list", TypeError, st.s.run, [0.5] * n)
    elif c["bad"] == "tuple":
        h.raises("a tuple", TypeError, st.s.run, (0.5,) * n)
    elif c["bad"] == "scalar":
        h.raises("a number", TypeError, st.s.run, h.real("x"))
    elif c["bad"] == "matrix":
        h.raises("a column", TypeError, st.s.run, h.mat("x", n, 1))
        h.raises("a row", TypeError, st.s.run, h.mat("y", 1, n))
        h.raises("a cube", TypeError, st.s.run, h.array("z", (1, n, 1)))
        if n == 1:
            h.raises("an array without dimensions", TypeError, st.s.run, h.array("o", ()))
    h.true("nothing was evaluated", len(st.fwd.points) == 0)


_S = ("MYULA", "PxMALA", "SKROCK")
HARNESSES = {
    "given": dict(fn=given, quick=[dict(cls=k, n=n, complex=z) for k in _S for n, z in ((1, False), (3, False), (2, True), (7, False), (5, True))]
                  + [dict(cls=k, n=n, complex=z, **o) for k in _S for n, z, o in ((2, False, dict(xcomplex=True)), (2, True, dict(xcomplex=False)),
                                                                                (3, False, dict(ints=True)), (6, False, dict(ints=True)),
                                                                                (3, False, dict(view="reversed")), (3, True, dict(view="strided")), (2, True, dict(ints=True)),
                                                                                (2, False, dict(zeros=True)), (3, True, dict(zeros=True)))]),
    "twice": dict(fn=twice, quick=[dict(cls=k, n=2, complex=z) for k in _S for z in (False, True)]),
    "again": dict(fn=again, quick=[dict(cls=k, n=2, complex=z) for k in _S for z in (False, True)]),
    "drawn": dict(fn=drawn, quick=[dict(cls=k, n=n, complex=z) for k in _S for n, z in ((1, False), (3, False), (1, True), (2, True), (8, False), (5, True))]),
    "rejected": dict(fn=rejected, quick=[dict(cls=k, n=2, complex=False, bad=b) for k in _S for b in ("size", "list", "tuple", "scalar", "matrix")] +
                     [dict(cls="MYULA", n=1, complex=True, bad=b) for b in ("size", "list")] + [dict(cls=k, n=n, complex=z, bad=b) for k in _S for n, z in ((1, False), (4, True)) for b in ("matrix", "size")]),
}
