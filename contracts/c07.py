"""C07: Kirk spread approximation."""
from .common import *

META = dict(
    trusted=["cut point: _CND is used through its contract N (C01)"],
    assumptions=["S1, S2, Q1, Q2, K, t, sigma1, sigma2 > 0, and the spread volatility is positive; r, b1, b2, rho arbitrary"],
)
S1, S2, Q1, Q2, s1, s2 = pos("S1", "S2", "Q1", "Q2", "sigma1", "sigma2")
b1, b2, rho = real("b1", "b2", "rho")
NAMES = dict(S1=S1, S2=S2, K=K, t=t, r=r, b1=b1, b2=b2, sigma1=s1, sigma2=s2, rho=rho, Q1=Q1, Q2=Q2)
BASE = dict(S1=122.0, S2=120.0, K=3.0, t=0.5, r=0.1, b1=0.01, b2=0.02, sigma1=0.2, sigma2=0.25, rho=0.5, Q1=1.0, Q2=1.0)
RANGES = dict(b1=(-.2, .3), b2=(-.2, .3), sigma1=(.05, 1), sigma2=(.05, 1), rho=(-.95, .95), Q1=(.3, 3), Q2=(.3, 3), K=(.5, 50))


def leg2(q2=Q2):
    return add(mul(q2, S2, exp(mul(sub(b2, r), t))), mul(K, exp(neg(mul(r, t)))))


def vol2(q2=Q2):
    F = div(mul(q2, S2, exp(mul(sub(b2, r), t))), leg2(q2))
    return add(mul(s1, s1), mul(s2, s2, F, F), mul(-2, rho, s1, s2, F))


def spec(z, q1=Q1, q2=Q2):
    L = leg2(q2)
    R = div(mul(q1, S1, exp(mul(sub(b1, r), t))), L)
    v = mul(sqrt(vol2(q2)), sqrt(t))
    d1 = div(add(log(R), mul(X.HALF if hasattr(X, "HALF") else C(0.5), vol2(q2), t)), v)
    d2 = sub(d1, v)
    return mul(z, L, sub(mul(R, N(mul(z, d1))), N(mul(z, d2))))


def kirk():
    return fo.spread_options.SpreadApproxOption(**{a: Sym(v) for a, v in NAMES.items()})


def case(z, **fix):
    return lambda env, p: [["kirk", dict({q: env.get(q, v) for q, v in BASE.items()}, z=z, **fix)]]


@task("price")
def price(k):
    th = theory(**RANGES)
    for z, m in ((1, "call"), (-1, "put")):
        k.verify(lambda: getattr(kirk(), m)(), lambda p: [("published price", eq(p.value, spec(z)))], th, hyps=[X.lt(X.ZERO, vol2())], case=case(z), what=m)
        k.verify(lambda: getattr(fo.spread_options.SpreadApproxOption(*syms(*list(NAMES.values())[:10])), m)(),
                 lambda p: [("default quantities are one", eq(p.value, spec(z, X.ONE, X.ONE)))], th, hyps=[X.lt(X.ZERO, vol2(X.ONE))],
                 case=case(z, Q1=1.0, Q2=1.0), what=m + " positional")


@task("exchange form")
def exch(k):
    """the price is the Black price of the ratio of the legs, so parity gives the spread forward"""
    th = theory(**RANGES)
    k.lemma("call - put", X.eq(sub(spec(1), spec(-1)), add(mul(Q1, S1, exp(mul(sub(b1, r), t))), neg(mul(Q2, S2, exp(mul(sub(b2, r), t)))), neg(mul(K, exp(neg(mul(r, t))))))),
            th, hyps=[X.lt(X.ZERO, vol2())])
