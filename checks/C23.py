"""Quadrature on the sphere is exact for band-limited signals."""
import math

BOUNDS = ("bandlimits 1-10 (quick) / 1-14 (thorough) with every band-limited complex signal (symbolic harmonic coefficients); 1-20, 32, 33, 47, 64, 65 (quick) / up to 129 (thorough) with every zonal signal and "
          "every map for the weights themselves")
ASSUMPTIONS = ["the synthesis matrix of the installed pyssht defines which signals are band-limited"]


def integral(h):
    L = h.cfg["L"]
    u, ss = h.mod("utils"), h.lib("pyssht")
    flm = h.vec("f", L * L, cplx=True)
    f = ss.inverse(flm, L, Spin=0).flatten()
    h.eq("integral is the monopole", u.s2_integrate(f, L), math.sqrt(4 * math.pi) * flm[0], scale=100.0)


def weights(h):
    """The weights alone: one per pixel, equal along each ring, correct for every zonal signal."""
    L = h.cfg["L"]
    w = h.mod("utils").mw_map_weights(L)
    h.true("one weight per pixel", w.shape == (L * (2 * L - 1),))
    g = h.vec("g", L * (2 * L - 1))
    h.eq("integration is the weighted sum", h.mod("utils").s2_integrate(g, L), h.np.sum(w * g), scale=100.0)
    h.eq("unit function", h.np.sum(w), 4 * math.pi, tol=1e-11)
    q = w.reshape((L, 2 * L - 1))
    # any zonal signal below the bandlimit: its integral is 4 pi times its mean
    a = h.vec("a", L)
    th = [(2 * t + 1) * math.pi / (2 * L - 1) for t in range(L)]
    P = [[1.0, math.cos(t)] for t in th]
    for p in P:
        for l in range(2, L):
            p.append(((2 * l - 1) * p[1] * p[l - 1] - (l - 1) * p[l - 2]) / l)
    ring = [sum(q[t, p] for p in range(2 * L - 1)) for t in range(L)]
    h.eq("zonal signals", sum(ring[t] * (P[t][l] * a[l]) for t in range(L) for l in range(L)), 4 * math.pi * a[0], tol=1e-10)
    for t in range(L):
        for p in range(2 * L - 1):
            h.eq("weights do not depend on longitude", q[t, p], q[t, 0])


HISTORY = True
HARNESSES = {
    "integral": dict(fn=integral, quick=[dict(L=L) for L in range(1, 11)], thorough=[dict(L=L) for L in range(11, 15)]),
    "weights": dict(fn=weights, quick=[dict(L=L) for L in [*range(1, 21), 32, 33, 47, 64, 65]], thorough=[dict(L=L) for L in [*range(21, 32), 100, 129]]),
}
