from .lattice import *


@check
def par(cls, z=1, amer=False, **a):
    S, K, t, r, b, sigma, n = [a[q] for q in ("S", "K", "t", "r", "b", "sigma", "n")]
    u, d, p, Df = params(cls, t, r, b, sigma, n)
    _, mag = induct(cls, z=1, amer=False, **a)
    E = make(cls, False, **a)
    c, q = E.call(), E.put()
    F = S * math.exp((b - r) * t)
    if cls == "JRBinomialTreeOption":
        F = S * ((u + d) / 2 * Df) ** n
    if not abs(c - q - (F - K * math.exp(-r * t))) <= 1e-9 * (F + K) + 1e-11 * mag:
        return f"call - put = {c - q!r}, forward - strike = {F - K * math.exp(-r * t)!r}"
    if cls == "TrinomialTreeOption":
        h = sigma * math.sqrt(t / n / 2)
        p = (math.exp(b * t / n / 2) - math.exp(-h)) / (2 * math.sinh(h))
    if 0 <= p <= 1 and r >= 0:
        A = make(cls, True, **a)
        ac, ap = A.call(), A.put()
        tol = 1e-9 * (S + K) + 1e-11 * mag
        if not (-tol <= c <= ac + tol and -tol <= q <= ap + tol):
            return f"European call/put {c!r}/{q!r} against American {ac!r}/{ap!r}"
        if b <= r and not ac <= S + tol:
            return f"American call {ac!r} above S = {S!r}"
        if not ap <= K + tol:
            return f"American put {ap!r} above K = {K!r}"


def sample(g):
    a = args(g)
    for cls in MODELS:
        yield ("par", dict(a, cls=cls))
