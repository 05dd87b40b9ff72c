"""C15: Barone-Adesi-Whaley against an independent solution of the value-matching equation"""
from .common import *
import finoptions as fo
from scipy.optimize import brentq


def pieces(z, K, t, r, b, s):
    s2 = s * s
    n1 = 2 * b / s2 - 1
    M = 2 * r / (s2 * -math.expm1(-r * t))
    q = (-n1 + z * math.sqrt(n1 * n1 + 4 * M)) / 2

    def A(v):
        d1 = (math.log(v / K) + (b + s2 / 2) * t) / (s * math.sqrt(t))
        return z * v / q * (1 - math.exp((b - r) * t) * ncdf(z * d1))

    def gap(v):
        return z * (v - K) - float(gbs(v, K, t, r, b, s, z)) - A(v)
    return q, A, gap


@check(must_return=True, limit=4)
def baw(S, K, t, r, b, sigma, z):
    o = fo.basic_american_options.BAWAmericanApproxOption(S, K, t, r, b, sigma)
    tol = 1e-7 * (S * math.exp(max((b - r) * t, 0)) + K) + 4e-6 * K
    if z == 1 and b >= r:
        w = float(gbs(S, K, t, r, b, sigma, 1))
        v = None
    else:
        try:
            q, A, gap = pieces(z, K, t, r, b, sigma)
            hi, lo = (K * 1.0000001, K * 1e4) if z == 1 else (K * 1e-9, K)
            ga, gb = gap(hi), gap(lo)
            if not ga * gb < 0:
                raise Skip
            v = brentq(gap, hi, lo, xtol=1e-12, rtol=1e-14, maxiter=500)
            # how far a solver-tolerance error in the gap moves the critical price
            h = 1e-5 * v
            slope = abs(gap(v + h) - gap(v - h)) / (2 * h)
            dv = 1.2e-6 * K / max(slope, 1e-12)
            if dv > .02 * v:
                raise Skip
            w = z * (S - K) if z * (S - v) >= 0 else float(gbs(S, K, t, r, b, sigma, z)) + A(v) * (S / v) ** q
            near = abs(S - v) <= 2 * dv
            # value-matching implies smooth pasting only approximately: move v and see
            alt = [float(gbs(S, K, t, r, b, sigma, z)) + A(v + e) * (S / (v + e)) ** q for e in (-dv, dv)]
            if z * (S - v) < 0:
                tol += max(abs(x - w) for x in alt) * 1.5
            elif near:
                tol += max(abs(x - w) for x in alt) * 1.5
        except (OverflowError, ZeroDivisionError, ValueError):
            raise Skip
    got = float(o.call() if z == 1 else o.put())
    if not abs(got - w) <= tol + 1e-9 * abs(w):
        return f"price {got!r}, published formula {w!r} (critical price {v!r}, tolerance {tol:.2g})"


ALWAYS = [["baw", dict(S=100, K=53.5272, t=.6079, r=.0144, b=.0142, sigma=.755, z=1)], ["baw", dict(S=1, K=235.15, t=2.0165, r=.025, b=-.2, sigma=.06, z=1)]]


def sample(g):
    o = g.option()
    z = g.pick(1, -1)
    o["r"] = max(abs(o["r"]), 1e-3)
    if g.chance(.15):
        o["b"] = o["r"] - 10 ** g.u(-6, -1)
    if g.chance(.1):
        o["b"] = o["r"]
    yield "baw", dict(o, z=z)
