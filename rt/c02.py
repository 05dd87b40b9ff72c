from .common import *
from scipy.integrate import quad
import finoptions as fo

OPT = fo.GBSOption(100.0, 100.0, 1.0, 0.1, 0.1, 0.2)


def exact(a, b, rho):
    """Plackett's integral from the independent case, or the degenerate limit"""
    if rho >= 1 - 1e-11:
        return ncdf(min(a, b))
    if rho <= -1 + 1e-11:
        return max(0.0, ncdf(a) - ncdf(-b))
    s = math.sqrt(1 - rho * rho)

    def f(x):
        return npdf(x) * ncdf((b - rho * x) / s)
    pts = sorted({min(max(b / rho, -9), a) if abs(rho) > 1e-9 else 0.0, min(0.0, a)})
    lo = -9.0
    if a <= lo:
        return 0.0
    edges = [lo] + [q for q in pts if lo < q < min(a, 9.0)] + [min(a, 9.0)]
    # refine near the kink b/rho, whose width is s/|rho|
    if abs(rho) > 0.5:
        c, w = b / rho, s / abs(rho)
        edges = sorted(set(edges) | {x for x in (c - 8 * w, c - 2 * w, c + 2 * w, c + 8 * w) if lo < x < min(a, 9.0)})
    return sum(quad(f, u, v, epsabs=1e-12, epsrel=1e-12, limit=200)[0] for u, v in zip(edges, edges[1:]))


@check
def cbnd(a, b, rho):
    f = getattr(OPT, "_CBND", None)
    if f is None:
        return
    v = f(a, b, rho)
    if v is None:
        return f"M({a!r}, {b!r}, {rho!r}) is None"
    w = exact(a, b, rho)
    if not abs(float(v) - w) <= 1e-6:
        return f"M({a!r}, {b!r}, {rho!r}) = {float(v)!r}, exact {w!r}"


@check
def symm(a, b, rho):
    f = getattr(OPT, "_CBND", None)
    if f is None:
        return
    v, w = f(a, b, rho), f(b, a, rho)
    if not abs(float(v) - float(w)) <= 1e-6:
        return f"M({a!r}, {b!r}, {rho!r}) = {v!r} but swapped {w!r}"


def sample(g):
    k = g.rng.random()
    a, b, rho = g.v(-5, 5), g.v(-5, 5), g.v(-1, 1)
    if k < 0.1:
        rho = g.pick(0.0, 1.0, -1.0, 0.5, -0.5, 0.999, -0.999, 0.99999, -0.99999)
    elif k < 0.2:
        a = g.pick(0.0, b, -b)
    elif k < 0.25:
        b = 0.0
    yield ("cbnd", dict(a=a, b=b, rho=rho))
    if k < 0.3:
        yield ("symm", dict(a=a, b=b, rho=rho))
