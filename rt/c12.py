"""C12/C13: two-asset lattice against an independent vectorised backward induction"""
from .common import *
import finoptions as fo
ALL = "BionomialSpreadAllTypes"
WRAP = {"BionomialSpreadOption": 1, "BionomialMaxOption": 2, "BionomialMinOption": 3}


def payoff(o, z, A, B, K, K2):
    if o == 4:
        return np.maximum(np.maximum(z * (A - K), 0), np.maximum(z * (B - K2), 0))
    if o == 5:
        return np.maximum(np.maximum(z * (A - K), 0), np.maximum(z * (K2 - B), 0))
    x = {1: lambda: A - B - K, 2: lambda: np.maximum(A, B) - K, 3: lambda: np.minimum(A, B) - K, 6: lambda: A + B - K,
         7: lambda: B - A, 8: lambda: A / B - K, 9: lambda: A * B - K}[o]()
    return np.maximum(z * x, 0)


def value(S1, S2, K, K2, t, r, b1, b2, sigma1, sigma2, rho, Q1, Q2, n, option, z, amer):
    dt = t / n
    h = math.sqrt(dt)

    def pay(m):
        y1 = (2 * np.arange(m + 1.0) - m) * h
        A = S1 * np.exp((b1 - sigma1 ** 2 / 2) * m * dt + sigma1 * y1)[:, None]
        B = S2 * np.exp((b2 - sigma2 ** 2 / 2) * m * dt + sigma2 * (rho * y1[:, None] + math.sqrt(1 - rho * rho) * y1[None, :]))
        return payoff(option, z, Q1 * A, Q2 * B, K, K2)
    v = pay(n) * np.ones((n + 1, n + 1))
    mag = float(np.max(np.abs(v)))
    for m in range(n)[::-1]:
        v = .25 * math.exp(-r * dt) * (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:])
        if amer:
            v = np.maximum(v, pay(m))
    return float(v[0, 0]), mag


def build(cls, option, amer, a, style=True):
    a = dict(a)
    if cls != ALL:
        a.pop("K2")
    elif option not in (4, 5):
        a["K2"] = None
    if cls == ALL:
        a["option"] = option
    if style:
        a["otype"] = "american" if amer else "european"
    return getattr(fo.spread_options, cls)(**a)


@check
def two(cls, option, z, amer, style=True, **a):
    want, mag = value(option=option, z=z, amer=amer, **a)
    o = build(cls, option, amer, a, style or amer)
    got = float(o.call() if z == 1 else o.put())
    if not abs(got - want) <= 1e-9 * abs(want) + 1e-12 * mag * math.exp(abs(a["r"]) * a["t"]) + 1e-10:
        return f"price {got!r}, backward induction {want!r}"


def args(g):
    v = g.option(t=(0.02, 3), sigma=(.05, .9))
    w = g.option(t=(0.02, 3), sigma=(.05, .9))
    n = g.pick(1, 1, 2, 2, 3, 4, 5, 6, g.rng.randint(1, 10))
    if g.chance(.05):
        x = g.lit(1, 12)
        if x is not None and x == int(x):
            n = int(x)
    a = dict(S1=v["S"], S2=w["S"], K=v["K"], K2=w["K"], t=v["t"], r=v["r"], b1=v["b"], b2=w["b"], sigma1=v["sigma"], sigma2=w["sigma"],
             rho=g.pick(g.rng.uniform(-1, 1), 0, 1, -1, .5, -.5), Q1=g.pick(1, 1, g.rng.uniform(.2, 3)), Q2=g.pick(1, 1, g.rng.uniform(.2, 3)), n=n)
    if g.chance(.3):
        a["K"] = round(g.rng.uniform(0.5, 40), 3)
    return a


def sample(g):
    a = args(g)
    o = g.rng.randint(1, 9)
    if o == 8 and g.chance(.9):
        a["K"] = round(g.rng.uniform(.05, 3), 3)
    if o == 9 and g.chance(.9):
        a["K"] = round(a["S1"] * a["S2"] * g.rng.uniform(.3, 3), 1)
    yield "two", dict(a, cls=ALL, option=o, z=g.pick(1, -1), amer=g.chance(.5), style=g.chance(.8))
