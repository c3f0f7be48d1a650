"""Weak lensing in harmonic space."""
import math

BOUNDS = "bandlimits 1-8 (quick) / 1-16 (thorough), arbitrary complex (and real) coefficients; invalid bandlimits 0, -1, -5"


def kernel(l):
    return 0.0 if l < 2 else -math.sqrt((l + 2) * (l - 1) / (l * (l + 1)))


def ells(L):
    return [l for l in range(L) for _ in range(2 * l + 1)]


def mapping(h):
    c = h.cfg
    L, z = c["L"], c["complex"]
    m = h.mod("measurements").WeakLensingHarmonic(L)
    k = h.vec("k", L * L, cplx=z)
    g = h.vec("g", L * L, cplx=z)
    ls = ells(L)
    K = h.const([kernel(l) for l in ls])
    h.eq("shear from convergence", m.forward(k.copy()), K * k)
    h.eq("adjoint", m.adjoint(g.copy()), K * g)
    inv = h.const([0.0 if l < 2 else 1 / kernel(l) for l in ls])
    h.eq("Kaiser-Squires estimate", m.sks_estimate(g.copy()), inv * g)
    keep = h.const([0.0 if l < 2 else 1.0 for l in ls])
    h.eq("Kaiser-Squires inverts the forward model", m.sks_estimate(m.forward(k.copy())), keep * k)


def refused(h):
    m = h.mod("measurements")
    h.raises("bandlimit below one", ValueError, m.WeakLensingHarmonic, h.cfg["L"])
    h.raises("bandlimit below one", ValueError, m.WeakLensing, h.cfg["L"])


HISTORY = True
HARNESSES = {
    "mapping": dict(fn=mapping, quick=[dict(L=L, complex=True) for L in range(1, 15)] + [dict(L=L, complex=False) for L in (2, 4, 9)],
                    thorough=[dict(L=L, complex=True) for L in range(15, 25)]),
    "refused": dict(fn=refused, quick=[dict(L=L) for L in (0, -1, -5)]),
}
