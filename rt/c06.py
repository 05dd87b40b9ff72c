from .common import *
import finoptions as fo
from scipy.integrate import quad


def vc(t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF):
    h = lambda k, x: (1 - math.exp(-k * x)) / k

    def f(u):
        e, g = h(KappaE, T - u), h(KappaF, T - u)
        return sigmaS ** 2 + 2 * sigmaS * (sigmaF * rhoSF * g - sigmaE * rhoSE * e) + (sigmaE * e) ** 2 + (sigmaF * g) ** 2 - 2 * sigmaE * sigmaF * rhoEF * e * g

    def c(u):
        return sigmaF * h(KappaF, t - u) * (sigmaS * rhoSF + sigmaF * h(KappaF, T - u) - sigmaE * rhoEF * h(KappaE, T - u))
    return quad(f, 0, t, epsabs=1e-13, epsrel=1e-12)[0], quad(c, 0, t, epsabs=1e-13, epsrel=1e-12)[0]


def exact(z, Pt, FT, K, **a):
    v2, c = vc(**a)
    if not v2 > 1e-6:
        raise Skip
    v = math.sqrt(v2)
    d1 = (math.log(FT / K) - c + v2 / 2) / v
    return z * Pt * (FT * math.exp(-c) * ncdf(z * d1) - K * ncdf(z * (d1 - v)))


@check
def ms(z, **a):
    o = fo.MiltersenSchwartzOption(**a)
    want = exact(z, **a)
    got = o.call() if z == 1 else o.put()
    # 1/kappa^2 terms of the closed form cancel: allow their rounding
    if not abs(got - want) <= 2e-7 * a["Pt"] * (a["FT"] + a["K"]) + 1e-9:
        return f"{'call' if z == 1 else 'put'} {got!r}, published price {want!r}"


def args(g):
    a, b_, c = [np.array([g.u(-1, 1) for _ in range(3)]) for _ in range(3)]
    a, b_, c = [v / np.linalg.norm(v) * math.sqrt(g.u(0.05, 0.999)) for v in (a, b_, c)]
    t = g.v(0.02, 3)
    T = t if g.chance(0.15) else t + g.v(0.0, 3)
    FT = g.par("S")
    return dict(Pt=math.exp(-g.u(-0.05, 0.2) * t), FT=FT, K=FT * math.exp(g.u(-.5, .5)), t=t, T=T, sigmaS=g.v(0.05, 0.8), sigmaE=g.v(0.02, 0.5),
                sigmaF=g.v(0.002, 0.1), rhoSE=float(a @ b_), rhoSF=float(a @ c), rhoEF=float(b_ @ c), KappaE=g.v(0.1, 4), KappaF=g.v(0.05, 3))


def sample(g):
    for z in (1, -1):
        yield ("ms", dict(args(g), z=z))
