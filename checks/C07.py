"""SKROCK's step is the s-stage stochastic Runge-Kutta-Chebyshev scheme."""
import math

from .common import Marathon, abs2, Script, Setup, check_noise, count_points, script_check_saved, scripted

BOUNDS = ("number of stages 1-6, 8, 11 (quick) / up to 10 (thorough); 1-2 consecutive steps; dimension 1-5, 9, 10 and 16, real, complex and mixed kinds; gradient, "
          "prox, step size, smoothing parameter, start point and draws arbitrary; runs of up to 100 steps with tabulated operators and one above 1000 "
          "with fixed numbers")


def coefs(s):
    """Coefficients from the closed forms T_j(x) = cosh(j acosh x), eta = 0.05."""
    w0 = 1 + 0.05 / s ** 2
    t = math.acosh(w0)
    T = lambda j: math.cosh(j * t)
    dT = s * math.sinh(s * t) / math.sinh(t)
    w1 = T(s) / dT
    co = {1: (w1 / w0, s * w1 / 2, s * w1 / w0)}
    for j in range(2, s + 1):
        r = T(j - 1) / T(j)
        co[j] = (2 * w1 * r, 2 * w0 * r, -T(j - 2) / T(j))
    return co


def steps(h):
    c = h.cfg
    n, s, k, z = c["n"], c["s"], c["k"], c["complex"]
    st = Setup(h, "SKROCK", n=n, nd=c.get("nd", 1), cplx=z, gcplx=c.get("gcomplex"), dcplx=bool(c.get("gcomplex")), nsamples=k, s=s)
    x0 = h.vec("x", n, cplx=c.get("xcomplex", z))
    st.s.run(x0.copy())
    co = coefs(s)
    mu, nu, ka = co[1]
    pts = st.fwd.points
    count_points(h, st.fwd, 1 + k * (s + 1), "one model evaluation per stage, one for the noisy start of the step")

    def grad(x):
        return -(x - st.prior.P.lookup(x)) / st.lmda - st.fwd.grad_at(x)

    x, noise = x0, []
    for j in range(k):
        r = pts[1 + j * (s + 1)] - x
        noise.append(r)
        K = [x, x + mu * st.delta * grad(x + r) + (ka / nu) * r]
        for i in range(2, s + 1):
            m, v, q = co[i]
            K.append(m * st.delta * grad(K[-1]) + v * K[-1] + q * K[-2])
        # a complex model makes the state complex even if the recorded parameters are real
        x = st.s.chain[j] if not c.get("gcomplex") else pts[(j + 1) * (s + 1)]
        h.eq("state after the step", x, K[s])
    check_noise(h, "noise of the step", noise, [2 * nu * nu * st.delta] * k, z)


def long(h):
    """Many steps with burn-in, thinning and progress output on a tabulated model."""
    c = h.cfg
    s, z, nb, ng, ns = c["s"], c["complex"], c["nburn"], c["ngap"], c["ns"]
    total, far = nb + (ns - 1) * max(ng, 1) + 1, c.get("marathon")
    sc = Marathon(h, c["n"], 1, z, z, upto=total - 4) if far else Script(h, c["n"], 1, z, z)
    st = scripted(h, "SKROCK", sc, mu=1.0, nsamples=ns, nburn=nb, ngap=ng, verbosity=c["verbosity"], s=s, **({"delta": 0.125, "lmda": 0.5} if far else {}))
    x0 = h.vec("x", c["n"], cplx=z)
    st.s.run(x0.copy())
    co = coefs(s)
    mu, nu, ka = co[1]
    h.true("one model evaluation per stage, one for the noisy start of the step", len(sc.points) == 1 + total * (s + 1))
    h.eq("starts at the start point", sc.points[0], x0)

    def grad(i):
        f, g, sh, q, l2 = sc.tab[i]
        return -sh / st.lmda - g

    noise, cur = [], 0
    for t in range(total):
        i = 1 + t * (s + 1)
        x = sc.points[cur]
        r = sc.points[i] - x
        noise.append(r)
        K = [x, x + mu * st.delta * grad(i) + (ka / nu) * r]
        for j in range(2, s + 1):
            h.eq("stage", sc.points[i + j - 1], K[-1])
            m, v, q = co[j]
            K.append(m * st.delta * grad(i + j - 1) + v * K[-1] + q * K[-2])
        cur = i + s
        h.eq("state after the step", sc.points[cur], K[s])
    if far:
        for r, w in zip(noise[:total - 4], h.numbers()):
            h.eq("noise of the step: covariance", abs2(h, r), 2 * nu * nu * st.delta * w * w)
        noise, total = noise[-4:], 4
    if not far or h.mode == "sym":
        check_noise(h, "noise of the step", noise, [2 * nu * nu * st.delta] * total, z)
    script_check_saved(h, st, [(k + 1) * (s + 1) for k in range(nb + ns * max(ng, 1))], nb, ng, ns)


def _c(s, n=1, k=1, z=False):
    return dict(s=s, n=n, k=k, complex=z)


HARNESSES = {
    "long": dict(fn=long, quick=[dict(s=s, n=n, ns=k, nburn=b, ngap=g, verbosity=v, complex=z) for s, n, k, b, g, v, z in
                                 ((1, 1, 40, 0, 1, 0, False), (1, 2, 5, 20, 3, 5, True), (2, 1, 12, 3, 2, 4, False), (3, 2, 4, 5, 0, 1, True), (5, 1, 3, 1, 2, 0, False), (11, 1, 1, 0, 1, 0, False),
                                  (1, 1, 3, 100, 1, 100, False), (2, 4, 3, 2, 2, 2, True), (4, 6, 2, 0, 1, 0, True))] + [dict(s=1, n=1, ns=3, nburn=1000, ngap=50, verbosity=100, complex=False, marathon=True)]),
    "steps": dict(fn=steps, quick=[_c(1), _c(1, 3, 2), _c(1, 2, 1, True), _c(2, 2, 2), _c(2, 2, 1, True), _c(3, 2, 1), _c(3, 1, 2), _c(3, 1, 1, True), _c(4, 1),
                                   _c(5, 1), _c(6), _c(8), _c(2, 5, 1), _c(3, 2, 1, True), dict(_c(1, 2, 2, True), xcomplex=False), dict(_c(2, 1, 1, True), xcomplex=False),
                                   dict(_c(4, 1, 1, True), xcomplex=False), dict(_c(6, 1, 1, True), xcomplex=False), dict(_c(1, 2, 2), gcomplex=True), dict(_c(2, 1, 2), gcomplex=True), dict(_c(4, 1, 2), gcomplex=True),
                                   _c(1, 9, 1, True), _c(2, 5, 1, True), _c(3, 4, 1, True), _c(2, 10), _c(1, 16, 1)],
                  thorough=[_c(7), _c(9), _c(10), _c(4, 3, 1, True), _c(4, 1, 2), _c(2, 3, 4), _c(5, 2, 1)]),
}
