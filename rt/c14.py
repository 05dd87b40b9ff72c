"""C14: Roll-Geske-Whaley with an independently solved critical price and an accurate bivariate normal"""
from .c02 import exact
from .common import *
import finoptions as fo
from scipy.optimize import brentq
CHECKS.clear()


@check
def rgw(S, K, t, td, r, D, sigma):
    o = fo.basic_american_options.RollGeskeWhaleyOption(S, K, t, td, r, D, sigma)
    sx = S - D * math.exp(-r * td)
    if not (sx > 0 and 0 < td < t):
        raise Skip
    tau = t - td
    edge = K * -math.expm1(-r * tau)
    if bool(o.is_call_optimal()) != (D > edge) and abs(D - edge) > 1e-12 * K:
        return f"is_call_optimal() = {o.is_call_optimal()!r} for dividend {D!r}, threshold {edge!r}"
    tol = 2e-6 * (sx + K)
    if D <= edge:
        w = float(gbs(sx, K, t, r, r, sigma, 1))
        I = None
    else:
        def gap(x):
            return float(gbs(x, K, tau, r, r, sigma, 1)) - x - D + K
        if not gap(4e7) < -1e-4:
            if not gap(6e7) > 1e-3 or S > 1e5 or sigma * math.sqrt(t) > 2:
                raise Skip
            w, far = float(gbs(sx, K, t, r, r, sigma, 1)), float(o.call())
            return None if abs(far - w) <= tol else f"price {far!r} with the critical price out of reach, european {w!r}"
        lo = 1e-9
        I = brentq(gap, lo, 4e7, xtol=1e-10, rtol=1e-13, maxiter=500) if gap(lo) > 0 else lo

        def form(I):
            a1 = (math.log(sx / K) + (r + sigma ** 2 / 2) * t) / (sigma * math.sqrt(t))
            a2 = a1 - sigma * math.sqrt(t)
            b1 = (math.log(sx / I) + (r + sigma ** 2 / 2) * td) / (sigma * math.sqrt(td))
            b2 = b1 - sigma * math.sqrt(td)
            rho = -math.sqrt(td / t)
            return (sx * ncdf(b1) + sx * exact(a1, -b1, rho) - K * math.exp(-r * t) * exact(a2, -b2, rho)
                    - (K - D) * math.exp(-r * td) * ncdf(b2))
        w = form(I)
        h = 1e-5 * I
        slope = abs(gap(I + h) - gap(I - h)) / (2 * h)
        dI = min(1.2e-5 / max(slope, 1e-9), .2 * I)
        tol += abs(form(I + dI) - w) + abs(form(I - dI) - w) + 1e-5
    got = float(o.call())
    if not abs(got - w) <= tol:
        return f"price {got!r}, published formula {w!r} (critical price {I!r}, tolerance {tol:.2g})"


def sample(g):
    o = g.option()
    t = o["t"]
    td = t * g.pick(.05, .5, .9, g.u(.02, .98))
    r = abs(o["r"])
    edge = o["K"] * -math.expm1(-r * (t - td))
    D = g.pick(g.u(.001, .3) * o["S"], edge * g.pick(.5, .99, 1.01, 1.2, 2) if edge > 1e-6 else .05 * o["S"])
    yield "rgw", dict(S=o["S"], K=o["K"], t=t, td=td, r=r, D=D, sigma=o["sigma"])
