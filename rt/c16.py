"""C16: Bjerksund-Stensland (1993) against an independent evaluation with the exact normal cdf"""
from .common import *
import finoptions as fo


def ref(S, K, t, r, b, s):
    if b >= r:
        return float(gbs(S, K, t, r, b, s, 1)), None, 1e-9, 1e-7 * (S * math.exp((b - r) * t) + K * math.exp(-r * t))
    s2 = s * s
    beta = .5 - b / s2 + math.sqrt((b / s2 - .5) ** 2 + 2 * r / s2)
    cond = 1e-9 + 1e-14 * (1 + abs(b) / s2 + math.sqrt(2 * abs(r)) / s) ** 2 / (beta - 1)
    if cond > 1e-6 or cond < 0:
        raise Skip
    binf = beta / (beta - 1) * K
    b0 = max(K, r / (r - b) * K)
    ht = -(b * t + 2 * s * math.sqrt(t)) * b0 / (binf - b0)
    I = b0 + (binf - b0) * (1 - math.exp(ht))
    if S >= I:
        return S - K, I, cond, 1e-12 * (S + K)
    tot = [0.0]
    h = s * math.sqrt(t)

    def phi(g, H):
        lam = (-r + g * b + .5 * g * (g - 1) * s2) * t
        d = -(math.log(S / H) + (b + (g - .5) * s2) * t) / h
        f = (I / S) ** (2 * b / s2 + 2 * g - 1)
        q = math.exp(lam) * S ** g
        return q * (ncdf(d) - f * ncdf(d - 2 * math.log(I / S) / h)), q * (1 + f)
    al = (I - K) * I ** -beta
    v = al * S ** beta
    for c, g, H in ((-al, beta, I), (1, 1, I), (-1, 1, K), (-K, 0, I), (K, 0, K)):
        x, e = phi(g, H)
        v += c * x
        tot[0] += abs(c) * e
    return float(v), I, cond, 1e-7  * tot[0] + (1e-12 + cond) * (abs(al * S ** beta) + S + K)


@check(must_return=True)
def bs93(S, K, t, r, b, sigma, z):
    try:
        v, I, cond, tol = ref(S, K, t, r, b, sigma) if z == 1 else ref(K, S, t, r - b, -b, sigma)
    except (OverflowError, ZeroDivisionError, ValueError):
        raise Skip
    if not (math.isfinite(v) and math.isfinite(tol)) or tol > 1e-3 * (S + K):
        raise Skip
    o = fo.basic_american_options.BSAmericanApproxOption(S, K, t, r, b, sigma)
    q = o.call() if z == 1 else o.put()
    got, tr = float(q["OptionPrice"]), float(q["TriggerPrice"])
    if I is None:
        if not math.isnan(tr):
            return f"trigger price {tr!r} for an option never exercised early"
    elif not close(tr, I, cond, 1e-9):
        return f"trigger price {tr!r}, expected {I!r}"
    if not abs(got - v) <= tol + 1e-9 * abs(v):
        return f"price {got!r}, published formula {v!r} (tolerance {tol:.2g})"


def sample(g):
    o = g.option(t=(.01, 3), sigma=(.05, 1.0))
    z = g.pick(1, -1)
    o["r"] = abs(o["r"]) if not g.chance(.1) else o["r"]
    B, R = (o["b"], o["r"]) if z == 1 else (-o["b"], o["r"] - o["b"])
    if B < R and R < 0:
        return
    if g.chance(.2):
        o["b"] = o["r"]
    yield "bs93", dict(o, z=z)
