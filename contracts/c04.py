"""C04: no-arbitrage relations of the closed-form models.

Every class is proved to return Black(A, D, w) = A N(d1) - D N(d2) (call; the put with both signs reversed) for its own
discounted forward A, discounted strike D and total volatility w; the relations are lemmas about Black.
"""
from .common import *
from . import c06, c07
from .c06 import Pt, FT
TASKS.clear()

META = dict(
    trusted=["cut point: _CND is used through its contract N (C01): N' = density, 0 <= N <= 1, N(x) + N(-x) = 1",
             "Mills ratio: N/n is increasing (used for the lower bound only)",
             "mean value theorem (a derivative of constant sign means monotone)"],
    assumptions=["positive prices, strikes, maturities and volatilities; positive variance for Miltersen-Schwartz and the spread model"],
)
A, D, w = pos("A", "D", "w")


def black(z, A, D, w):
    d1 = div(add(log(div(A, D)), mul(C(0.5), w, w)), w)
    d2 = sub(d1, w)
    return mul(z, sub(mul(A, N(mul(z, d1))), mul(D, N(mul(z, d2))))), d1, d2


@task("lemmas about Black(A, D, w)")
def lemmas(k):
    th = theory(A=(5, 200), D=(5, 200), w=(0.05, 1.5))
    c, d1, d2 = black(1, A, D, w)
    p, _, _ = black(-1, A, D, w)
    L = lambda n, g, h=(): k.lemma(n, g, th, h)
    L("parity", X.eq(sub(c, p), sub(A, D)))
    L("same density", X.eq(mul(A, nd(d1)), mul(D, nd(d2))))
    L("dC/dA = N(d1)", X.eq(X.diff(c, A), N(d1)))
    L("dP/dA = -N(-d1)", X.eq(X.diff(p, A), neg(N(neg(d1)))))
    L("dC/dD = -N(d2)", X.eq(X.diff(c, D), neg(N(d2))))
    L("dP/dD = N(-d2)", X.eq(X.diff(p, D), N(neg(d2))))
    L("dC/dw = A n(d1)", X.eq(X.diff(c, w), mul(A, nd(d1))))
    L("dP/dw = A n(d1)", X.eq(X.diff(p, w), mul(A, nd(d1))))
    for g, nm in ((N(d1), "N(d1)"), (N(neg(d1)), "N(-d1)"), (N(d2), "N(d2)"), (N(neg(d2)), "N(-d2)"), (mul(A, nd(d1)), "A n(d1)")):
        L(f"{nm} >= 0", X.le(X.ZERO, g))
    L("C <= A", X.le(c, A))
    L("P <= D", X.le(p, D))
    # lower bounds: with x >= y, N(x) n(y) >= N(y) n(x) (Mills), A n(d1) = D n(d2), everything positive
    x, y, m1, m2 = real("x", "y", "m1", "m2")
    k.lemma("C >= 0 from Mills' inequality", X.le(X.ZERO, sub(mul(A, x), mul(D, y))), theory(),
            [X.lt(X.ZERO, m1), X.lt(X.ZERO, m2), X.eq(mul(A, m1), mul(D, m2)), X.ge(mul(x, m2), mul(y, m1))])
    k.lemma("P >= 0 from Mills' inequality", X.le(X.ZERO, sub(mul(D, y), mul(A, x))), theory(),
            [X.lt(X.ZERO, m1), X.lt(X.ZERO, m2), X.eq(mul(A, m1), mul(D, m2)), X.ge(mul(y, m1), mul(x, m2))])
    L("d1 >= d2", X.le(d2, d1))


def cls(k, name, make, ADw, base, th, hyps=(), case=None, scale=None):
    for z, m in ((1, "call"), (-1, "put")):
        a, d, v = ADw
        want = black(z, a, d, v)[0]
        if scale is not None:
            want = mul(scale, want)

        def cs(env, p):
            return [[case, {q: env.get(q, x) for q, x in base.items()}]]
        k.verify(lambda: getattr(make(), m)(), lambda p: [("Black(A, D, w)", eq(p.value, want))], th, hyps=hyps, case=cs, what=m)

    def both():
        o = make()
        return o.call(), o.put()
    par = sub(ADw[0], ADw[1])
    if scale is not None:
        par = mul(scale, par)
    k.verify(both, lambda p: [("call - put = discounted forward - strike", X.eq(sub(ev(p.value[0]), ev(p.value[1])), par))], th, hyps=hyps,
             case=lambda env, p: [[case, {q: env.get(q, x) for q, x in base.items()}]], what="parity")


GB = dict(S=100.0, K=95.0, t=0.7, r=0.05, b=0.02, sigma=0.3)


def gA(bb):
    return mul(S, exp(mul(sub(bb, r), t))), mul(K, exp(neg(mul(r, t)))), mul(sigma, sqrt(t))


@task("GBSOption")
def g1(k):
    cls(k, "GBSOption", lambda: fo.GBSOption(*syms(S, K, t, r, b, sigma)), gA(b), GB, theory(), case="gbs")


@task("BlackScholesOption")
def g2(k):
    cls(k, "BlackScholesOption", lambda: fo.BlackScholesOption(*syms(S, K, t, r, b, sigma)), gA(b), GB, theory(), case="bs")


@task("Black76Option")
def g3(k):
    cls(k, "Black76Option", lambda: fo.Black76Option(*syms(S, K, t, r, sigma)), gA(X.ZERO), {q: v for q, v in GB.items() if q != "b"}, theory(), case="b76")


@task("MiltersenSchwartzOption")
def g4(k):
    A_ = mul(FT, exp(neg(c06.cov())))
    cls(k, "MS", c06.ms, (A_, K, sqrt(c06.var2())), c06.BASE, theory(**c06.RANGES), hyps=[X.lt(X.ZERO, c06.var2())], case="ms", scale=Pt)


@task("SpreadApproxOption")
def g5(k):
    A_ = mul(c07.Q1, c07.S1, exp(mul(sub(c07.b1, r), t)))
    cls(k, "Kirk", c07.kirk, (A_, c07.leg2(), mul(sqrt(c07.vol2()), sqrt(t))), c07.BASE, theory(**c07.RANGES), hyps=[X.lt(X.ZERO, c07.vol2())], case="kirk")
