from .common import *
import finoptions as fo
from finoptions import base as _b


class P(fo.GBSOption):
    pass


OPT = fo.GBSOption(100.0, 100.0, 1.0, 0.1, 0.1, 0.2)


@check
def cdf(x):
    """through the helper and through prices: d = delta of an option with d1 = x"""
    f = getattr(OPT, "_CND", None)
    if f is not None:
        v = float(f(x))
        w = float(f(-x))
        if not abs(v - ncdf(x)) <= 7.5e-8 + 1e-15:
            return f"N({x!r}) = {v!r}, exact {ncdf(x)!r}"
        if x != 0 and not abs(v + w - 1) <= 1e-15:
            return f"N(x)+N(-x) = {v + w!r} at {x!r}"
        if not -1e-15 <= v <= 1 + 1e-15:
            return f"N({x!r}) = {v!r} outside [0,1]"
    # b = r, sigma = t = 1, K = 1: d1 = log S + r + 1/2 and the call delta is N(d1)
    if abs(x) < 30:
        o = fo.GBSOption(math.exp(x - 0.5), 1.0, 1.0, 0.0, 0.0, 1.0)
        v = float(o.delta())
        if not abs(v - ncdf(x)) <= 7.5e-8 + 1e-13:
            return f"call delta with d1 = {x!r} is {v!r}, exact {ncdf(x)!r}"


@check
def zero(x=0.0):
    f = getattr(OPT, "_CND", None)
    if f is not None and not abs(float(f(0.0)) - 0.5) <= 1e-9:
        return f"N(0) = {f(0.0)!r}"


@check
def pdf(x):
    f = getattr(OPT, "_NDF", None)
    if f is not None:
        return differs(f"density at {x!r}", float(f(x)), npdf(x), 1e-13, 1e-300)


@check
def arr(xs):
    f, d = getattr(OPT, "_CND", None), getattr(OPT, "_NDF", None)
    if f is None or d is None:
        return
    a = np.array(xs)
    for i, v in enumerate(xs):
        m = first(differs(f"array cdf at {v}", f(a)[i], f(v), 1e-15, 1e-16),
                  differs(f"array density at {v}", d(a)[i], d(v), 1e-15, 1e-16))
        if m:
            return m


def sample(g):
    x = g.v(-8, 8)
    if g.chance(0.1):
        x = g.v(-40, 40)
    if g.chance(0.02):
        x = g.pick(1e-12, -1e-12, 1e-5, -1e-5, 1e-300, 30.0, -37.0, 5e-324)
    yield ("cdf", dict(x=x))
    yield ("pdf", dict(x=x))
    if g.first or g.chance(0.01):
        yield ("zero", {})
        yield ("arr", dict(xs=[g.v(-6, 6) for _ in range(g.rng.randint(1, 6))] + [0.0]))
