"""C06: Miltersen-Schwartz commodity option price."""
from .common import *

META = dict(
    trusted=["cut point: _CND is used through its contract N (C01)"],
    assumptions=["all prices, volatilities, mean reversions and maturities positive; the variance is positive (correlations admissible)"],
)
Pt, FT, T, sS, sE, sF, kE, kF = pos("Pt", "FT", "T", "sigmaS", "sigmaE", "sigmaF", "KappaE", "KappaF")
rSE, rSF, rEF = real("rhoSE", "rhoSF", "rhoEF")
NAMES = dict(Pt=Pt, FT=FT, K=K, t=t, T=T, sigmaS=sS, sigmaE=sE, sigmaF=sF, rhoSE=rSE, rhoSF=rSF, rhoEF=rEF, KappaE=kE, KappaF=kF)
ORDER = list(NAMES)
BASE = dict(Pt=0.98, FT=95.0, K=80.0, t=0.25, T=0.5, sigmaS=0.266, sigmaE=0.249, sigmaF=0.0096, rhoSE=0.3, rhoSF=0.08, rhoEF=0.12, KappaE=1.045, KappaF=0.2)
RANGES = dict(T=(0.5, 3), t=(0.05, 0.5), Pt=(0.5, 1.0), sigmaS=(0.1, 0.6), sigmaE=(0.05, 0.3), sigmaF=(0.005, 0.05), rhoSE=(-.3, .3), rhoSF=(-.3, .3),
              rhoEF=(-.3, .3), KappaE=(0.3, 2), KappaF=(0.1, 1))


def I(k, tt):
    """integral of exp(-k (T - u)) over [0, tt]"""
    return div(mul(exp(neg(mul(k, T))), sub(exp(mul(k, tt)), 1)), k)


def h(k, x):
    return div(sub(1, exp(neg(mul(k, x)))), k)


def var2(tt=t):
    """closed form of the variance integral"""
    A = lambda k: div(sub(tt, I(k, tt)), k)
    B = lambda k, l: div(add(tt, neg(I(k, tt)), neg(I(l, tt)), I(add(k, l), tt)), mul(k, l))
    return add(mul(sS, sS, tt), mul(2, sS, sub(mul(sF, rSF, A(kF)), mul(sE, rSE, A(kE)))), mul(sE, sE, B(kE, kE)), mul(sF, sF, B(kF, kF)),
               mul(-2, sE, sF, rEF, B(kE, kF)))


def varint(u):
    """the integrand: squared diffusion of the forward at time u"""
    hE, hF = h(kE, sub(T, u)), h(kF, sub(T, u))
    return add(mul(sS, sS), mul(2, sS, sub(mul(sF, rSF, hF), mul(sE, rSE, hE))), mul(sE, sE, hE, hE), mul(sF, sF, hF, hF), mul(-2, sE, sF, rEF, hE, hF))


def cov(tt=t):
    """closed form of the covariance integral"""
    J = h(kF, tt)                                  # int exp(-kF (t-u))
    def M(k):                                      # int exp(-kF (t-u)) exp(-k (T-u))
        return div(mul(exp(neg(mul(k, T))), sub(exp(mul(k, tt)), exp(neg(mul(kF, tt))))), add(kF, k))
    def part(k):                                   # int (1 - exp(-kF (t-u))) (1 - exp(-k (T-u)))
        return add(tt, neg(I(k, tt)), neg(J), M(k))
    return mul(div(sF, kF), add(mul(sS, rSF, sub(tt, J)), mul(div(sF, kF), part(kF)), neg(mul(div(mul(sE, rEF), kE), part(kE)))))


def spec(z):
    v2 = var2()
    v = sqrt(v2)
    c = cov()
    lm = log(div(FT, K))
    d1 = div(add(lm, neg(c), div(v2, 2)), v)
    d2 = div(add(lm, neg(c), neg(div(v2, 2))), v)
    return mul(z, Pt, sub(mul(FT, exp(neg(c)), N(mul(z, d1))), mul(K, N(mul(z, d2)))))


def ms(kw=True):
    if kw:
        return fo.MiltersenSchwartzOption(**{a: Sym(v) for a, v in NAMES.items()})
    return fo.MiltersenSchwartzOption(*syms(*NAMES.values()))


def case(z):
    def f(env, p):
        e = {q: env.get(q, v) for q, v in BASE.items()}
        return [["ms", dict(e, z=z)]]
    return f


@task("price")
def price(k):
    th = theory(**RANGES)
    hyps = [X.lt(X.ZERO, var2())]
    for z, m in ((1, "call"), (-1, "put")):
        k.verify(lambda: getattr(ms(), m)(), lambda p: [("published price", eq(p.value, spec(z)))], th, hyps=hyps, case=case(z), what=m)
    k.verify(lambda: ms(False).call(), lambda p: [("positional", eq(p.value, spec(1)))], th, hyps=hyps, case=case(1), what="positional call")


@task("integrals")
def integrals(k):
    """the closed forms are the model's time integrals"""
    th = theory(**RANGES)
    u = t
    d = X.diff(var2(u), t)
    k.lemma("d/dt variance = integrand at t", X.eq(d, varint(t)), th)
    k.lemma("variance(0) = 0", X.eq(X.subst(var2(u), {t: X.ZERO}), X.ZERO), th)
    c = cov(u)
    c1 = X.diff(c, t)
    c2 = X.diff(c1, t)
    rhs = mul(sF, add(mul(sS, sF, rSF) if False else mul(sS, rSF), mul(sF, h(kF, sub(T, t))), neg(mul(sE, rEF, h(kE, sub(T, t))))))
    # cov(t) = int_0^t sF h_kF(t-u) g(u) du  <=>  cov(0)=cov'(0)=0, cov'' + kF cov' = sF g(t)
    k.lemma("covariance differential equation", X.eq(add(c2, mul(kF, c1)), rhs), th)
    k.lemma("covariance(0) = 0", X.eq(X.subst(c, {t: X.ZERO}), X.ZERO), th)
    k.lemma("covariance'(0) = 0", X.eq(X.subst(c1, {t: X.ZERO}), X.ZERO), th)
