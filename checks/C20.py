"""Packing of scaling and wavelet coefficients into one vector and back."""
BOUNDS = "1-16 coefficients per scale, 1-9 scales, square layouts too; 0-45 scaling and 0-40 wavelet coefficients of mixed lengths; real and complex; every value symbolic"


def scales(h):
    """Equal-length scales: vector -> (wavelets, scaling) -> vector."""
    c = h.cfg
    n, k, z = c["n"], c["k"], c["complex"]
    u = h.mod("utils")
    scal = h.vec("s", n, cplx=z)
    wav = h.mat("w", n, k, cplx=z)
    m = u.flatten_mlm(wav.copy(), scal.copy())
    h.true("length", m.shape == (n * (k + 1),))
    h.eq("scaling coefficients come first", m[:n], scal)
    for j in range(k):
        h.eq("then one scale after the other", m[n * (j + 1):n * (j + 2)], wav[:, j])
    w2, s2 = u.expand_mlm(m, nscales=k)
    h.eq("wavelets back", w2, wav)
    h.eq("scaling back", s2, scal)
    w3, s3 = u.expand_mlm(m, nscales=k, flatten_wavs=True)
    h.eq("flat wavelets", w3, m[n:])
    h.eq("scaling back (flat)", s3, scal)
    h.eq("packing again gives the same vector", u.flatten_mlm(w2, s2), m)
    h.eq("packing the flat wavelets too", u.flatten_mlm(w3, s3), m)


def multires(h):
    """Scales of different lengths."""
    c = h.cfg
    ns, nw, z = c["ns"], c["nw"], c["complex"]
    u = h.mod("utils")
    scal, wav = h.vec("s", ns, cplx=z), h.vec("w", nw, cplx=z)
    m = u.flatten_mlm(wav.copy(), scal.copy())
    h.eq("scaling first", m[:ns], scal)
    h.eq("wavelets after", m[ns:], wav)
    w2, s2 = u.expand_mlm(m, nscalcoefs=ns)
    h.eq("wavelets back", w2, wav)
    h.eq("scaling back", s2, scal)


def refused(h):
    u = h.mod("utils")
    v = h.vec("v", 6)
    h.raises("no layout given", ValueError, u.expand_mlm, v)
    h.raises("two layouts given", ValueError, u.expand_mlm, v, nscales=2, nscalcoefs=2)
    h.raises("two layouts given, one empty", ValueError, u.expand_mlm, v, nscales=2, nscalcoefs=0)
    h.raises("two layouts given, no wavelets", ValueError, u.expand_mlm, v, nscales=0, nscalcoefs=6)
    h.raises("two layouts given in order", ValueError, u.expand_mlm, v, 1, 3)


HISTORY = True
HARNESSES = {
    "scales": dict(fn=scales, quick=[dict(n=n, k=k, complex=z) for n, k in ((1, 1), (2, 1), (1, 3), (3, 2), (5, 4), (16, 5), (9, 2), (2, 9), (2, 2), (3, 3), (4, 4)) for z in (False, True)]),
    "multires": dict(fn=multires, quick=[dict(ns=a, nw=b, complex=z) for a, b in ((1, 1), (1, 4), (4, 1), (3, 5), (6, 28), (1, 40), (45, 15), (7, 7), (3, 0), (0, 3)) for z in (False, True)]),
    "refused": dict(fn=refused, quick=[{}]),
}
