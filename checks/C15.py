"""Weak lensing in pixel space: masked, weighted spherical lensing operator and its adjoint."""
import math

from .C14 import ells, kernel
from .common import inner

BOUNDS = ("bandlimit 2 with every non-empty mask (symbolic flags) and bandlimit 3 with selected masks, two of them with four arbitrary flags (quick), bandlimit 4 (thorough); galaxy counts any "
          "positive reals or none; complex and real convergence maps, complex shear data, all entries symbolic")


def reference(h, L, kappa, mask, weights):
    """pixels -> spin-0 harmonics -> lensing kernel -> spin-2 map -> unmasked pixels -> weights"""
    ss = h.lib("pyssht")
    klm = ss.forward(kappa.reshape((L, 2 * L - 1)), L, Spin=0)
    glm = klm * h.const([kernel(l) for l in ells(L)])
    gam = ss.inverse(glm, L, Spin=2).flatten()
    idx = [i for i, m in enumerate(mask) if m]
    return h.seq([gam[i] for i in idx], complex) * weights


def build(h, L, mask, ngal):
    shape = (L, 2 * L - 1)
    kw = {}
    w = None
    idx = [i for i, m in enumerate(mask) if m]
    if not all(mask) or h.cfg.get("explicit"):
        kw["mask"] = h.const([[mask[i * shape[1] + j] for j in range(shape[1])] for i in range(shape[0])], dtype={"int": int, "bool": bool, "float": float}[h.cfg.get("mtype", "int")])
    if ngal:
        ng = h.array("ngal", shape, nonneg=True) if ngal != "int" else h.const([[1 + (3 * i + 5 * j) % 7 for j in range(shape[1])] for i in range(shape[0])], dtype=int)
        kw["ngal"] = ng
        f = ng.flatten()
        w = h.np.sqrt(h.seq([2 * f[i] / 0.37 ** 2 for i in idx]))
    else:
        w = h.const([1.0] * len(idx))
    return h.mod("measurements").WeakLensing(L, **kw), w, len(idx)


def operator(h):
    c = h.cfg
    L = c["L"]
    npix = L * (2 * L - 1)
    mask = [1 if h.flag(f"m{i}") else 0 for i in range(npix)] if c["mask"] == "any" else [
        int(ch) if ch != "?" else 1 if h.flag(f"m{i}") else 0 for i, ch in enumerate(c["mask"])]
    h.assume(sum(mask) > 0)
    m, w, nd = build(h, L, mask, c["ngal"])
    kappa = h.vec("k", npix, cplx=c["complex"])
    gamma = h.vec("g", nd, cplx=True)
    f = m.forward(kappa.copy())
    h.true("one datum per unmasked pixel", f.shape == (nd,))
    h.eq("masked, weighted shear", f, reference(h, L, kappa, mask, w), scale=10.0)
    a = m.adjoint(gamma.copy())
    h.true("adjoint gives a map", a.shape == (npix,))
    k2 = kappa.astype(complex)
    h.eq("adjoint identity", inner(h, f, gamma), inner(h, k2, a), scale=100.0)


def masking(h):
    """Masking alone, and its adjoint."""
    c = h.cfg
    L = c["L"]
    shape = (L, 2 * L - 1)
    mask = [int(ch) for ch in c["mask"]]
    m, w, nd = build(h, L, mask, c["ngal"])
    if not hasattr(m, "mask_forward") or not hasattr(m, "mask_adjoint"):
        return
    f = h.array("f", shape, cplx=True)
    x = h.vec("x", nd, cplx=True)
    idx = [i for i, v in enumerate(mask) if v]
    flat = f.flatten()
    h.eq("unmasked pixels in map order", m.mask_forward(f.copy()), h.seq([flat[i] for i in idx], complex))
    a = m.mask_adjoint(x.copy())
    h.true("a map", a.shape == shape)
    b = a.flatten()
    for i in range(len(mask)):
        h.eq("data at the unmasked pixels, zero elsewhere", b[i], x[idx.index(i)] if mask[i] else 0 * x[0])


def refused(h):
    c = h.cfg
    L = c["L"]
    W = h.mod("measurements").WeakLensing
    if c["bad"] == "mask":
        h.raises("mask of the wrong shape", ValueError, W, L, mask=h.const([[1] * c["shape"][1]] * c["shape"][0], dtype=int))
    elif c["bad"] == "ngal":
        h.raises("galaxy counts of the wrong shape", ValueError, W, L, ngal=h.array("n", tuple(c["shape"]), pos=True))
    else:
        h.raises("map of the wrong size", Exception, W(L).forward, h.vec("k", c["n"], cplx=True))


HISTORY = True


def VARIANTS(c):
    if "mask" not in c:
        return []
    n = c["L"] * (2 * c["L"] - 1)
    return [dict(c, mask="".join("1" if i % 3 == 1 else "0" for i in range(n))), dict(c, ngal=not c["ngal"]), dict(c, mask="1" * n, explicit=True)]


HARNESSES = {
    "masking": dict(fn=masking, quick=[dict(L=3, mask=m, ngal=g, mtype=t) for m, g, t in
                                       (("1" * 15, False, "int"), ("101110011010111", True, "bool"), ("000001111100000", False, "float"), ("100000000000000", True, "int"),
                                        ("000000000000001", False, "bool"))] + [dict(L=5, mask="110100111" * 5, ngal=True)]),
    "operator": dict(fn=operator, quick=[dict(L=2, mask="any", ngal=False, complex=True), dict(L=2, mask="any", ngal=True, complex=True),
                                         dict(L=2, mask="111111", ngal=True, complex=False), dict(L=1, mask="1", ngal=True, complex=True),
                                         dict(L=3, mask="111111111111111", ngal=False, complex=True),
                                         dict(L=3, mask="101110011010111", ngal=True, complex=True),
                                         dict(L=3, mask="000001111100000", ngal=True, complex=False), dict(L=3, mask="000000000000100", ngal=False, complex=True),
                                         dict(L=2, mask="110101", ngal=True, complex=True, mtype="bool"), dict(L=2, mask="110101", ngal=True, complex=True, mtype="float"),
                                         dict(L=2, mask="011010", ngal="int", complex=True), dict(L=2, mask="111111", ngal=False, complex=True, explicit=True),
                                         dict(L=4, mask="1101101" * 4, ngal=False, complex=True),
                                         dict(L=3, mask="203150010042011", ngal=False, complex=True), dict(L=3, mask="220202110002201", ngal=True, complex=True, mtype="float"),
                                         dict(L=3, mask="110101001011101", ngal=True, complex=True, mtype="bool"), dict(L=3, mask="110101001011101", ngal=False, complex=True, mtype="float"),
                                         dict(L=3, mask="011010001011101", ngal="int", complex=True), dict(L=3, mask="1" * 15, ngal=False, complex=True, explicit=True),
                                         dict(L=3, mask="1?0?110?0111?01", ngal=True, complex=True), dict(L=3, mask="?010?00?10110?1", ngal=False, complex=True)],
                     thorough=[dict(L=3, mask="111110000011111", ngal=False, complex=True), dict(L=4, mask="1101" * 7, ngal=True, complex=False)]),
    "refused": dict(fn=refused, quick=[dict(L=2, bad="mask", shape=s) for s in ([3, 2], [2, 2], [3, 5], [1, 3], [2, 4])] +
                    [dict(L=2, bad="ngal", shape=s) for s in ([3, 2], [2, 2], [3, 5])] + [dict(L=2, bad="map", n=n) for n in (4, 5, 7, 12)]),
}
