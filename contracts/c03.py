"""C03: closed-form Black-Scholes family prices."""
from .common import *

META = dict(
    trusted=["cut point: _CND is used through its contract N (C01: |_CND - Phi| <= 7.5e-8, in [0,1], symmetric)"],
    assumptions=["S, K, t, sigma > 0; r, b arbitrary reals"],
)


def closed(k, make, bcar, names, cname, extra=()):
    for z, m in ((1, "call"), (-1, "put")):
        def run():
            o = make()
            return getattr(o, m)()
        spec = bs(S, K, t, r, bcar, sigma, z)
        k.verify(run, lambda p: [("closed form", eq(p.value, spec))], theory(), what=m,
                 case=lambda env, p: [[cname, dict({q: env.get(q, dflt) for q, dflt in names}, z=z)]])


BASE = [("S", 100.0), ("K", 95.0), ("t", 0.7), ("r", 0.05), ("b", 0.02), ("sigma", 0.3)]


@task("GBSOption")
def gbs(k):
    closed(k, lambda: fo.GBSOption(*syms(S, K, t, r, b, sigma)), b, BASE, "gbs")


@task("GBSOption keywords")
def gbskw(k):
    closed(k, lambda: fo.GBSOption(S=Sym(S), K=Sym(K), t=Sym(t), r=Sym(r), b=Sym(b), sigma=Sym(sigma)), b, BASE, "gbs")


@task("BlackScholesOption")
def bso(k):
    closed(k, lambda: fo.BlackScholesOption(*syms(S, K, t, r, b, sigma)), b, BASE, "bs")


@task("Black76Option")
def b76(k):
    closed(k, lambda: fo.Black76Option(*syms(S, K, t, r, sigma)), X.ZERO, BASE, "b76")


@task("error bound")
def err(k):
    """with |N~(x) - N(x)| <= e the price is within e*(S e^((b-r)t) + K e^(-rt)) of the exact one"""
    A, B = pos("A", "B")
    n1, n2, m1, m2, e = real("n1", "n2", "m1", "m2", "e")
    hy = []
    for x, y in ((n1, m1), (n2, m2)):
        hy += [X.le(sub(x, y), e), X.le(sub(y, x), e)]
    p, q = sub(mul(A, n1), mul(B, n2)), sub(mul(A, m1), mul(B, m2))
    k.lemma("price error", X.and_(X.le(sub(p, q), mul(e, add(A, B))), X.le(sub(q, p), mul(e, add(A, B)))), hyps=hy)
