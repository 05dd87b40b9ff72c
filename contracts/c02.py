"""C02: the bivariate normal distribution function."""
from .common import *

META = dict(
    trusted=["reduction identities of the bivariate normal distribution M (Drezner 1978 / Haug): each case of the "
             "function is proved to be the identity applied to M of the arguments it recurses on",
             "recursive calls are used through the contract M; termination by the proved measure"],
    assumptions=["a, b finite, |rho| <= 1"],
    bounded=["accuracy of the 5x5 Gauss quadrature against the exact distribution (<= 1e-6): bounded, sampled at run time"],
)
a, b, rho = real("a", "b", "rho")
XS = ["0.24840615", "0.39233107", "0.21141819", "0.03324666", "0.00082485334"]
YS = ["0.10024215", "0.48281397", "1.0609498", "1.7797294", "2.6697604"]


def D(s):
    from fractions import Fraction
    return X.const(Fraction(s))


def M(x, y, q):
    return X.app("M", x, y, q)


def quadrature(a, b, q):
    a1 = div(a, sqrt(mul(2, sub(1, mul(q, q)))))
    b1 = div(b, sqrt(mul(2, sub(1, mul(q, q)))))
    s = C(0)
    for i in range(5):
        for j in range(5):
            s = add(s, mul(D(XS[i]), D(XS[j]), exp(add(mul(a1, sub(mul(2, D(YS[i])), a1)), mul(b1, sub(mul(2, D(YS[j])), b1)),
                                                   mul(2, q, sub(D(YS[i]), a1), sub(D(YS[j]), b1))))))
    return mul(div(sqrt(sub(1, mul(q, q))), X.PI), s)


def sg(x):
    return X.sign(x)


def root(a, b, q):
    return sqrt(add(mul(a, a), mul(-2, q, a, b), mul(b, b)))


Z = X.ZERO


def region(a, b, q):
    c1 = X.and_(X.le(a, Z), X.le(b, Z), X.le(q, Z))
    c2 = X.and_(X.le(a, Z), X.ge(b, Z), X.ge(q, Z))
    c3 = X.and_(X.ge(a, Z), X.le(b, Z), X.ge(q, Z))
    c4 = X.and_(X.ge(a, Z), X.ge(b, Z), X.le(q, Z))
    return c1, c2, c3, c4


def spec(a, b, q):
    c1, c2, c3, c4 = region(a, b, q)
    r1 = div(mul(sub(mul(q, a), b), sg(a)), root(a, b, q))
    r2 = div(mul(sub(mul(q, b), a), sg(b)), root(a, b, q))
    dl = div(sub(1, mul(sg(a), sg(b))), 4)
    e5 = sub(add(M(a, Z, r1), M(b, Z, r2)), dl)
    e4 = add(N(a), N(b), C(-1), M(neg(a), neg(b), q))
    e3 = sub(N(b), M(neg(a), b, neg(q)))
    e2 = sub(N(a), M(a, neg(b), neg(q)))
    return X.ite(c1, quadrature(a, b, q), X.ite(c2, e2, X.ite(c3, e3, X.ite(c4, e4, e5))))


def measure(a, b, q):
    c1, c2, c3, c4 = region(a, b, q)
    return X.ite(c1, C(0), X.ite(X.or_(c2, c3, c4), C(1), C(2)))


REAL = fo.base._Base._CBND
CALLS = []
DEPTH = [0]


def wrapped(self, x1, x2, q):
    if DEPTH[0] == 0:
        DEPTH[0] = 1
        try:
            return REAL(self, x1, x2, q)
        finally:
            DEPTH[0] = 0
    CALLS.append((ev(x1), ev(x2), ev(q)))
    return Sym(M(*CALLS[-1]))


def probe():
    return fo.GBSOption(100, 100, 1, 0.1, 0.1, 0.2)


def cs(env, p):
    q = min(1.0, max(-1.0, env["rho"]))
    return [["cbnd", dict(a=env["a"], b=env["b"], rho=q)]]


def post_for(q):
    def post(p):
        v, calls = p.value
        out = [("identity / quadrature", eq(v, spec(a, b, q)))]
        for i, c in enumerate(calls):
            out.append((f"recursive call {i + 1} is smaller", X.lt(measure(*c), measure(a, b, q))))
            out.append((f"recursive call {i + 1}: correlation in [-1, 1]",
                        X.le(mul(c[2], c[2]), X.ONE)))
        return out
    return post


def run():
    fo.base._Base._CBND = wrapped
    CALLS.clear()
    DEPTH[0] = 0
    v = probe()._CBND(Sym(a), Sym(b), Sym(rho))
    return v, list(CALLS)


TH = dict(a=(-4, 4), b=(-4, 4), rho=(-1, 1))


@task("|rho| < 1")
def inner(k):
    k.verify(run, post_for(rho), theory(**TH), hyps=[X.lt(C(-1), rho), X.lt(rho, C(1))], case=cs, what="_CBND")


@task("rho = +-1")
def edge(k):
    for s in (1, -1):
        def run1():
            fo.base._Base._CBND = wrapped
            CALLS.clear()
            DEPTH[0] = 0
            return probe()._CBND(Sym(a), Sym(b), s), list(CALLS)
        q = X.const(1 - __import__("fractions").Fraction(1, 10 ** 12))
        q = q if s == 1 else neg(q)
        k.verify(run1, post_for(q), theory(**TH), case=lambda env, p: [["cbnd", dict(a=env["a"], b=env["b"], rho=s)]],
                 what=f"_CBND rho={s}")
