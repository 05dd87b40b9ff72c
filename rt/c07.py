from .common import *
import finoptions as fo


def exact(z, S1, S2, K, t, r, b1, b2, sigma1, sigma2, rho, Q1, Q2):
    A, B, D = Q1 * S1 * math.exp((b1 - r) * t), Q2 * S2 * math.exp((b2 - r) * t), K * math.exp(-r * t)
    F = B / (B + D)
    v2 = sigma1 ** 2 + (sigma2 * F) ** 2 - 2 * rho * sigma1 * sigma2 * F
    if not v2 > 1e-8:
        raise Skip
    v = math.sqrt(v2 * t)
    d1 = (math.log(A / (B + D)) + v * v / 2) / v
    return z * (A * ncdf(z * d1) - (B + D) * ncdf(z * (d1 - v))), 1e-7 * (A + B + D)


@check
def kirk(z, **a):
    C = fo.spread_options.SpreadApproxOption
    b = dict(a)
    o = C(**a)
    if a["Q1"] == 1 and a["Q2"] == 1:
        del b["Q1"], b["Q2"]
        o = C(**b)
    want, tol = exact(z, **a)
    got = o.call() if z == 1 else o.put()
    if not abs(got - want) <= tol + 1e-9:
        return f"{'call' if z == 1 else 'put'} {got!r}, published price {want!r}"


def args(g):
    S2 = g.par("S")
    K = g.v(0.01, 60)
    o = dict(S2=S2, K=K, t=g.par("t"), r=g.par("r"), b1=g.par("b"), b2=g.par("b"), sigma1=g.v(.03, 1.2), sigma2=g.v(.03, 1.2), rho=g.v(-1, 1), Q1=1.0, Q2=1.0)
    if g.chance(.5):
        o["Q1"], o["Q2"] = g.v(.2, 4), g.v(.2, 4)
    o["S1"] = (S2 * o["Q2"] + K) / o["Q1"] * math.exp(g.u(-.5, .5))
    for q in ("b1", "b2"):
        if g.chance(.1):
            o[q] = g.pick(0.0, o["r"])
    return o


def sample(g):
    for z in (1, -1):
        yield ("kirk", dict(args(g), z=z))
