"""Sky masks."""
import math

BOUNDS = "bandlimits 1-4 (quick) / 1-6 (thorough); every width from 0.1 to 120 degrees (symbolic) further than 0.001 degrees from a pixel's distance, and the default"
ASSUMPTIONS = ["the galactic pole is at right ascension 192.85948 and declination 27.12825 degrees"]


def distance(theta, phi):
    """Degrees from the equator and from the galactic plane."""
    d, a = math.pi / 2 - theta, phi
    dg, ag = math.radians(27.12825), math.radians(192.85948)
    sb = math.sin(d) * math.sin(dg) + math.cos(d) * math.cos(dg) * math.cos(a - ag)
    return min(abs(math.degrees(d)), abs(math.degrees(math.asin(max(-1.0, min(1.0, sb))))))


def mask(h):
    c = h.cfg
    L = c["L"]
    if c.get("size") == "default":
        size, args = 20, []
    elif "size" in c:
        size, args = c["size"], [c["size"]]
    else:
        size = h.real("size", 0.1, 120)
        args = [size]
    m = h.mod("utils").build_mask(L, *args)
    h.true("one value per pixel", m.shape == (L, 2 * L - 1))
    for t in range(L):
        for p in range(2 * L - 1):
            d = distance((2 * t + 1) * math.pi / (2 * L - 1), 2 * math.pi * p / (2 * L - 1))
            if h.is_true(size > d + 0.001):
                h.eq("masked near the planes", m[t, p], 0.0)
            elif h.is_true(size < d - 0.001):
                h.eq("kept elsewhere", m[t, p], 1.0)


HISTORY = True
HARNESSES = {
    "mask": dict(fn=mask, quick=[dict(L=L) for L in (1, 2, 3, 4, 5)] + [dict(L=L, size="default") for L in (5, 8)] + [dict(L=10, size=s) for s in (5.0, 12.0, 33.0, 61.5)], thorough=[dict(L=6), dict(L=12, size="default")]),
}
