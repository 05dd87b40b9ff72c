from .common import *
import finoptions as fo


def cmp(o, S, K, t, r, b, sigma, z):
    got = o.call() if z == 1 else o.put()
    want = gbs(S, K, t, r, b, sigma, z)
    tol = 1e-7 * (S * math.exp((b - r) * t) + K * math.exp(-r * t)) + 1e-9
    if not (abs(got - want) <= tol):
        return f"{'call' if z == 1 else 'put'} price {got!r}, closed form {want!r}"


@check
def gbs_(S, K, t, r, b, sigma, z):
    return cmp(fo.GBSOption(S, K, t, r, b, sigma), S, K, t, r, b, sigma, z)


CHECKS["gbs"] = gbs_


@check
def bs(S, K, t, r, b, sigma, z):
    return cmp(fo.BlackScholesOption(S=S, K=K, t=t, r=r, b=b, sigma=sigma), S, K, t, r, b, sigma, z)


@check
def b76(S, K, t, r, sigma, z, b=0):
    return cmp(fo.Black76Option(S, K, t, r, sigma), S, K, t, r, 0.0, sigma, z)


def sample(g):
    o = g.option()
    z = g.pick(1, -1)
    yield ("gbs", dict(o, z=z))
    yield ("bs", dict(o, z=-z))
    yield ("b76", dict(o, z=z))
