from .common import *
import finoptions as fo
from . import c06, c07
CHECKS.clear()


def rel(mk, args, A, D, up, down, vol):
    """A, D: discounted forward / strike functions of the arguments"""
    o = mk(**args)
    c, p = o.call(), o.put()
    a, d = A(**args), D(**args)
    tol = 1e-7 * (a + d) + 1e-9
    if not abs(c - p - (a - d)) <= 1e-9 * (a + d) + 1e-9:
        return f"call - put = {c - p!r}, forward - strike = {a - d!r}"
    for nm, x, lo, hi in (("call", c, max(0, a - d), a), ("put", p, max(0, d - a), d)):
        if not lo - tol <= x <= hi + tol:
            return f"{nm} {x!r} outside [{lo!r}, {hi!r}]"
    for f in (1.0001, 1.02, 1.5):
        for q, sc, sp in ((up, 1, -1), (down, -1, 1), (vol, 1, 1)):
            if q is None:
                continue
            b = dict(args, **{q: args[q] * f})
            o2 = mk(**b)
            tol2 = tol + 1e-7 * (A(**b) + D(**b))
            if not sc * (o2.call() - c) >= -tol2:
                return f"call goes from {c!r} to {o2.call()!r} when {q} is multiplied by {f}"
            if not sp * (o2.put() - p) >= -tol2:
                return f"put goes from {p!r} to {o2.put()!r} when {q} is multiplied by {f}"


def gA(S, t, r, b=0.0, **k):
    return S * math.exp((b - r) * t)


def gD(K, t, r, **k):
    return K * math.exp(-r * t)


@check
def gbs_(**a):
    return rel(fo.GBSOption, a, gA, gD, "S", "K", "sigma")


CHECKS["gbs"] = gbs_


@check
def bs(**a):
    return rel(fo.BlackScholesOption, a, gA, gD, "S", "K", "sigma")


@check
def b76(**a):
    a.pop("b", None)
    return rel(lambda S, K, t, r, sigma: fo.Black76Option(S, K, t, r, sigma), a, gA, gD, "S", "K", "sigma")


@check
def ms(**a):
    v2, c = c06.vc(**{q: v for q, v in a.items() if q not in ("Pt", "FT", "K")})
    if not v2 > 1e-6:
        raise Skip
    return rel(fo.MiltersenSchwartzOption, a, lambda Pt, FT, **k: Pt * FT * math.exp(-c), lambda Pt, K, **k: Pt * K, "FT", "K", None)


@check
def kirk(**a):
    c07.exact(1, **a)
    return rel(fo.spread_options.SpreadApproxOption, a, lambda Q1, S1, b1, r, t, **k: Q1 * S1 * math.exp((b1 - r) * t),
               lambda Q2, S2, b2, r, t, K, **k: Q2 * S2 * math.exp((b2 - r) * t) + K * math.exp(-r * t), "S1", None, None)


def sample(g):
    o = g.option()
    yield ("gbs", o)
    yield ("bs", o)
    o = dict(o)
    del o["b"]
    yield ("b76", o)
    yield ("ms", c06.args(g))
    yield ("kirk", c07.args(g))
