"""Implied volatility round trips (bounded: sampled options and arrays)"""
import warnings
from .classes import *

VOLS = ["GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption"]


def solve(o, cls, price, z, **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return o.volatility(price, **kw) if cls == "RollGeskeWhaleyOption" else o.volatility(price, call=z == 1, **kw)


def vega(cls, a, z):
    h = 1e-4
    return (value(build(cls, dict(a, sigma=a["sigma"] + h)), z) - value(build(cls, dict(a, sigma=a["sigma"] - h)), z)) / (2 * h)


@check(limit=20)
def roundtrip(cls, z, arrays=(), seed=0, bare=False, verbose=False, **a):
    ks = order(cls)
    p0 = float(value(build(cls, a), z))
    scale = a.get("S", a.get("FT")) + a["K"]
    if not vega(cls, a, z) > 1e-3 * scale:
        raise Skip                      # the price does not respond to the volatility
    if not arrays:
        o = build(cls, {q: v for q, v in a.items() if q != "sigma"}) if bare else build(cls, a)
        before = snapshot(o)
        s = solve(o, cls, p0, z, **(dict(verbose=True) if verbose else {}))
        s = float(s.root if verbose else s)
        p1 = float(value(build(cls, dict(a, sigma=s)), z))
        if not abs(p1 - p0) <= 1e-7 * scale or not s > 0:
            return f"{cls} {z}: volatility({p0!r}) = {s!r}, whose price is {p1!r}"
        if not same(snapshot(o), before):
            return f"{cls}: solving changed the option"
        return
    g = Gen(seed)
    m = g.pick(2, 3, 5)
    rows = []
    for i in range(m):
        w = dict(a)
        for q in arrays:
            if q != "price" and q in w:
                w[q] = a[q] * g.u(.9, 1.1) if q != "r" else a[q] + g.u(-.01, .02)
        w["sigma"] = a["sigma"] * g.u(.8, 1.25)
        if not vega(cls, w, z) > 5e-3 * scale:
            raise Skip
        rows.append(w)
    if "price" not in arrays:           # one price for all rows
        prices = [p0] * m
        for w in rows:
            lo, hi = float(value(build(cls, dict(w, sigma=.05)), z)), float(value(build(cls, dict(w, sigma=1.2)), z))
            if not lo + .02 * scale < p0 < hi - .02 * scale:
                raise Skip
    else:
        prices = [float(value(build(cls, w), z)) for w in rows]
    x = {q: (np.array([w[q] for w in rows]) if q in arrays else a[q]) for q in ks if q != "sigma"}
    o = build(cls, dict(x, sigma=a["sigma"]) if not bare else x)
    before = snapshot(o)
    s = solve(o, cls, np.array(prices) if "price" in arrays else p0, z, **(dict(verbose=True) if verbose else {}))
    if verbose:
        if not getattr(s, "success", True):
            raise Skip
        s = getattr(s, "x", getattr(s, "root", None))
    s = np.asarray(s)
    if s.shape != (m,):
        return f"{cls} {z} arrays {arrays}: shape {s.shape}, {m} prices"
    got = [float(value(build(cls, dict(w, sigma=float(v))), z)) for w, v in zip(rows, s)]
    if any(not abs(p - q) <= 1e-6 * scale for p, q in zip(got, prices)):
        return f"{cls} {z} arrays {arrays}: prices {prices} volatilities {s.tolist()} whose prices are {got}"
    if not same(snapshot(o), before):
        return f"{cls}: solving changed the option"


def sample(g):
    while True:
        c = g.pick(*VOLS)
        a = params(g, c)
        arrs = [] if c == "RollGeskeWhaleyOption" or g.chance(.5) else [q for q in ["price"] + [k for k in order(c) if k not in ("sigma",)] if g.chance(.4)]
        if arrs:
            k = "S" if "S" in a else "FT"
            a["sigma"], a["t"] = g.u(.2, .5), g.u(.3, 1.5)
            a["K"] = a[k] * g.u(.85, 1.15)
        yield "roundtrip", dict(a, cls=c, z=g.pick(*sides(c)), arrays=arrs, seed=g.rng.randrange(10**6), bare=g.chance(.5), verbose=g.chance(.2))
