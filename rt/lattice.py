"""independent backward induction"""
from .common import *
import finoptions as fo
MODELS = ["CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption"]


def params(cls, t, r, b, sigma, n):
    dt = t / n
    e = math.exp
    if cls == "CRRBinomialTreeOption":
        u, d = e(sigma * math.sqrt(dt)), e(-sigma * math.sqrt(dt))
        p = (e(b * dt) - d) / (u - d)
    elif cls == "JRBinomialTreeOption":
        m = (b - sigma ** 2 / 2) * dt
        u, d, p = e(m + sigma * math.sqrt(dt)), e(m - sigma * math.sqrt(dt)), .5
    elif cls == "TIANBinomialTreeOption":
        M, V = e(b * dt), e(sigma ** 2 * dt)
        w = math.sqrt(V * V + 2 * V - 3)
        u, d = M * V / 2 * (V + 1 + w), M * V / 2 * (V + 1 - w)
        p = (M - d) / (u - d)
    else:
        h = sigma * math.sqrt(dt / 2)
        q = (e(b * dt / 2) - e(-h)) / (e(h) - e(-h))
        return e(2 * h), e(-2 * h), (q * q, (1 - q) * (1 - q)), e(-r * dt)
    return u, d, p, e(-r * dt)


def induct(cls, S, K, t, r, b, sigma, n, z, amer):
    """-> list of value arrays, lowest node first, and a magnitude bound for rounding"""
    u, d, p, Df = params(cls, t, r, b, sigma, n)
    three = cls == "TrinomialTreeOption"

    def spots(j):
        if three:
            return S * u ** np.arange(-j, j + 1.0)
        k = np.arange(j + 1.0)
        return S * u ** k * d ** (j - k)
    v = np.maximum(z * (spots(n) - K), 0)
    out = [v]
    amp = 1.0
    if three:
        pu, pd = p
        pm = 1 - pu - pd
        amp = (abs(pu) + abs(pm) + abs(pd)) * max(Df, 1)
    else:
        amp = (abs(p) + abs(1 - p)) * max(Df, 1)
    for j in range(n)[::-1]:
        v = Df * (pu * v[2:] + pm * v[1:-1] + pd * v[:-2]) if three else Df * (p * v[1:] + (1 - p) * v[:-1])
        if amer:
            v = np.maximum(v, z * (spots(j) - K))
        out.append(v)
    top = float(np.max(np.abs(out[0]))) + K
    return out[::-1], top * amp ** n


def make(cls, amer, default=False, **a):
    c = getattr(fo.binomial_tree_options, cls)
    kind = "american" if amer else "european"
    if default:
        return c(a["S"], a["K"], a["t"], a["r"], a["b"], a["sigma"], n=a["n"])
    return c(a["S"], a["K"], a["t"], a["r"], a["b"], a["sigma"], kind, a["n"])


@check
def lat(cls, z, amer, default=False, **a):
    tr, mag = induct(cls, z=z, amer=amer, **a)
    want = tr[0][0]
    o = make(cls, amer, default and not amer, **a)
    got = o.call() if z == 1 else o.put()
    if not abs(got - want) <= 1e-9 * abs(want) + 1e-12 * mag + 1e-9:
        return f"price {got!r}, backward induction {want!r}"
    if amer and got < z * (a["S"] - a["K"]) - 1e-9 * a["S"]:
        return f"price {got!r} below immediate exercise {z * (a['S'] - a['K'])!r}"


def args(g, genuine=False):
    n = g.pick(1, 1, 2, 2, 3, 4, 5, 6, 7, 10, 15, g.rng.randint(1, 40))
    if g.chance(.02):
        n = g.rng.randint(40, 130)
    elif g.chance(.05):
        x = g.lit(1, 300)
        if x is not None:
            n = max(1, round(x) + g.pick(-1, 0, 0, 1))
    o = g.option(t=(0.01, 3), sigma=(0.05, 1.0))
    while not sane(o, n):
        o = g.option(t=(0.01, 3), sigma=(0.05, 1.0))
        n = g.pick(1, 2, 3, 5)
    return dict(o, n=n)


def sane(o, n):
    return o["sigma"] * math.sqrt(n * o["t"]) < 8 and o["sigma"] ** 2 * o["t"] / n < 2
