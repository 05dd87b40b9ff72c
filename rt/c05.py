from .common import *
import finoptions as fo


def exact(S, K, t, r, b, sigma, z):
    sq = sigma * math.sqrt(t)
    d1 = (math.log(S / K) + (b + sigma * sigma / 2) * t) / sq
    d2 = d1 - sq
    A, D = S * math.exp((b - r) * t), K * math.exp(-r * t)
    P = z * (A * ncdf(z * d1) - D * ncdf(z * d2))
    g = dict(delta=z * A / S * ncdf(z * d1), gamma=A / S * npdf(d1) / (S * sq), vega=A * npdf(d1) * math.sqrt(t),
             theta=-A * npdf(d1) * sigma / (2 * math.sqrt(t)) - z * (b - r) * A * ncdf(z * d1) - z * r * D * ncdf(z * d2),
             CofC=z * t * A * ncdf(z * d1), rho=z * t * D * ncdf(z * d2) if b != 0 else -t * P)
    tol = dict(delta=1e-7 * A / S, gamma=0, vega=0, theta=1e-7 * (abs(b - r) * A + abs(r) * D), CofC=1e-7 * t * A,
               rho=1e-7 * t * (A + D))
    return P, g, tol, A, D


def make(cls, S, K, t, r, b, sigma):
    if cls == "Black76Option":
        return fo.Black76Option(S, K, t, r, sigma)
    return getattr(fo, cls)(S, K, t, r, b, sigma)


@check
def greek(S, K, t, r, b, sigma, z, cls):
    o = make(cls, S, K, t, r, b, sigma)
    call = z == 1
    P, g, tol, A, D = exact(S, K, t, r, b, sigma, z)
    got = o.greeks(call)
    if set(got) != set(g) | {"lambda"}:
        return f"greeks() keys {sorted(got)}"
    single = dict(delta=o.delta(call=call), theta=o.theta(call=call), vega=o.vega(), rho=o.rho(call=call),
                  gamma=o.gamma(), CofC=o.c_of_c(call=call))
    for k, want in g.items():
        for where, v in (("greeks()", got[k]), (f"{k}()", single[k])):
            if not abs(v - want) <= tol[k] + 1e-10 * abs(want) + 1e-11:
                return f"{where} {k} = {v!r}, exact derivative {want!r}"
    price = o.call() if call else o.put()
    for v in (got["lambda"], o.lamb(call=call)):
        if abs(price) > 1e-3 * (A + D) and not close(v, got["delta"] * S / price, 1e-9, 1e-9):
            return f"lambda = {v!r}, delta*S/price = {got['delta'] * S / price!r}"
    if abs(P) > 1e-3 * (A + D) and not close(got["lambda"], g["delta"] * S / P, 1e-3, 1e-6):
        return f"lambda = {got['lambda']!r}, exact {g['delta'] * S / P!r}"


@check
def dfl(S, K, t, r, b, sigma):
    o = fo.GBSOption(S, K, t, r, b, sigma)
    for a, c in ((o.delta(), o.delta(True)), (o.theta(), o.theta(True)), (o.rho(), o.rho(True)), (o.lamb(), o.lamb(True)),
                 (o.c_of_c(), o.c_of_c(True)), (o.greeks()["delta"], o.delta(True)), (o.delta(), o.delta(True, "analytic"))):
        if a != c and not (a != a and c != c):
            return f"default argument differs: {a!r} {c!r}"


def sample(g):
    o = g.option()
    yield ("greek", dict(o, z=1, cls=g.pick("GBSOption", "BlackScholesOption")))
    yield ("greek", dict(o, z=-1, cls=g.pick("GBSOption", "BlackScholesOption")))
    yield ("greek", dict(o, b=0.0, z=g.pick(1, -1), cls="Black76Option"))
    if g.chance(0.02):
        yield ("dfl", o)
