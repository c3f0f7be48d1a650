"""Areas on the sphere."""
import math

BOUNDS = "every radius and angle (symbolic); pixelisations of bandlimit 1-8 (quick) / 1-16 (thorough) with symbolic radius"


def patches(h):
    np = h.np
    u = h.mod("utils")
    r = h.real("r", pos=True)
    t1, t2, t3, p1, p2, p3 = (h.real(v, 0, 6) for v in ("t1", "t2", "t3", "p1", "p2", "p3"))
    A = u.pixel_area
    h.eq("area of a rectangle", A(r, t1, t2, p1, p2), r * r * (np.cos(t1) - np.cos(t2)) * (p2 - p1), scale=1e3)
    h.eq("additive in colatitude", A(r, t1, t2, p1, p2) + A(r, t2, t3, p1, p2), A(r, t1, t3, p1, p2), scale=1e3)
    h.eq("additive in longitude", A(r, t1, t2, p1, p2) + A(r, t1, t2, p2, p3), A(r, t1, t2, p1, p3), scale=1e3)
    h.eq("cap", u.polar_cap_area(r, t1), 2 * math.pi * r * r * (1 - np.cos(t1)), scale=1e3)
    h.eq("a cap is a full ring down from the pole", u.polar_cap_area(r, t1), A(r, 0.0, t1, 0.0, 2 * math.pi), scale=1e3)
    h.eq("whole sphere", u.polar_cap_area(r, math.pi), 4 * math.pi * r * r, scale=1e3)


def pixels(h):
    c = h.cfg
    L = c["L"]
    u = h.mod("utils")
    r = h.real("r", pos=True)
    a = u.calc_pixel_areas(L, r) if c["given"] else u.calc_pixel_areas(L)
    rr = r * r if c["given"] else 1.0
    h.true("one area per pixel", a.shape == (L, 2 * L - 1))
    th = [(2 * t + 1) * math.pi / (2 * L - 1) for t in range(L)]
    h.eq("areas cover the sphere", h.np.sum(a), 4 * math.pi * rr, scale=1e3)
    for t in range(L):
        lo = 0.0 if t == 0 else th[t - 1]
        ring = 2 * math.pi * (math.cos(lo) - math.cos(th[t])) * rr / (2 * L - 1)
        for p in range(2 * L - 1):
            h.eq("pixel reaches from the ring above to its own", a[t, p], ring, scale=1e3)


HISTORY = True
HARNESSES = {
    "patches": dict(fn=patches, quick=[{}]),
    "pixels": dict(fn=pixels, quick=[dict(L=L, given=True) for L in range(1, 17)] + [dict(L=L, given=False) for L in (1, 3, 8)], thorough=[dict(L=L, given=True) for L in (20, 24, 32)]),
}
