"""Published lattices: parameters, the backward-induction functions V, loop-invariant templates."""
from .common import *

bt = fo.binomial_tree_options
dt = div(t, n)
Df = exp(neg(mul(r, dt)))
sdt = sqrt(dt)


def crr():
    u, d = exp(mul(sigma, sdt)), exp(neg(mul(sigma, sdt)))
    return u, d, div(sub(exp(mul(b, dt)), d), sub(u, d))


def jr():
    m = mul(sub(b, div(mul(sigma, sigma), 2)), dt)
    return exp(add(m, mul(sigma, sdt))), exp(sub(m, mul(sigma, sdt))), C(0.5)


def tian():
    M, V = exp(mul(b, dt)), exp(mul(sigma, sigma, dt))
    w = sqrt(sub(add(mul(V, V), mul(2, V)), 3))
    u, d = mul(C(0.5), M, V, add(V, 1, w)), mul(C(0.5), M, V, sub(add(V, 1), w))
    return u, d, div(sub(M, d), sub(u, d))


def tri():
    u, d = exp(mul(sigma, sqrt(mul(2, dt)))), exp(neg(mul(sigma, sqrt(mul(2, dt)))))
    Eb, h = exp(mul(C(0.5), b, dt)), mul(sigma, sqrt(mul(C(0.5), dt)))
    q = div(sub(Eb, exp(neg(h))), sub(exp(h), exp(neg(h))))
    q2 = div(sub(exp(h), Eb), sub(exp(h), exp(neg(h))))
    pu, pd = mul(q, q), mul(q2, q2)
    return u, d, pu, sub(sub(1, pu), pd), pd


BIN = {"CRRBinomialTreeOption": crr, "JRBinomialTreeOption": jr, "TIANBinomialTreeOption": tian}
TRI = "TrinomialTreeOption"
MODELS = list(BIN) + [TRI]


def V(j, k, name="V"):
    return X.app(name, j, k)


def binpay(z, u, d, j, k):
    return mul(z, sub(mul(S, X.pow_(u, k), X.pow_(d, sub(j, k))), K))


def tripay(z, u, d, j, k):
    return mul(z, sub(mul(S, exp(mul(sub(k, j), sigma, sqrt(mul(2, dt))))), K))


def unfold(model, z, amer, name="V", steps=n):
    """V(j, k): value after j steps at node k (k = 0 the lowest)"""
    if model == TRI:
        u, d, pu, pm, pd = tri()
    else:
        u, d, p = BIN[model]()

    def f(j, k):
        j1 = add(j, 1)
        if model == TRI:
            cont = mul(Df, add(mul(pu, V(j1, add(k, 2), name)), mul(pm, V(j1, add(k, 1), name)), mul(pd, V(j1, k, name))))
            pay = lambda j, k: tripay(z, u, d, j, k)
        else:
            cont = mul(Df, add(mul(p, V(j1, add(k, 1), name)), mul(sub(1, p), V(j1, k, name))))
            pay = lambda j, k: binpay(z, u, d, j, k)
        if amer:
            cont = X.max_(pay(j, k), cont)
        return X.ite(X.eq(j, n), X.pp(pay(n, k)), cont)
    return f


def template(model, name="V"):
    def tm(kind, ent, N_, en):
        if kind != "array" or N_ is None or len(ent.shp) != 1:
            return
        if model == TRI:
            shapes = (lambda c: ent.shp, lambda c: (add(mul(2, sub(n, c)), 1),))
            guard = lambda c, ix: X.le(ix[0], mul(2, sub(n, c)))
        else:
            shapes = (lambda c: ent.shp, lambda c: (sub(add(n, 1), c),))
            guard = lambda c, ix: X.le(ix[0], sub(n, c))
        for shape in shapes:
            yield ArrayCand(shape, guard, lambda c, ix: V(sub(n, c), ix[0], name), "V")
    return tm


GB = dict(S=50.0, K=48.0, t=0.4, r=0.06, b=0.03, sigma=0.35, n=4)
DOM = dict(n=(1, 6), sigma=(0.1, 1.0), r=(0.0, 0.15), b=(-0.1, 0.12))


def make(model, amer, kw=False):
    kind = "american" if amer else "european"
    c = getattr(bt, model)
    if kw == "default":
        return c(*syms(S, K, t, r, b, sigma), n=Sym(n))
    return c(*syms(S, K, t, r, b, sigma), type=kind, n=Sym(n))


def case(name, model, z, amer, **more):
    def f(env, p):
        e = {q: env.get(q, v) for q, v in GB.items()}
        if e["n"] > 60 or e["n"] < 1:
            e["n"] = 4
        return [[name, dict(e, cls=model, z=z, amer=amer, **more)]]
    return f


def price_is_V(k, model, z, amer, name, post=None, kw=False):
    th = theory(**DOM)
    th.unfolds["V"] = unfold(model, z, amer)
    m = "call" if z == 1 else "put"
    goal = post or (lambda p: [("backward induction", eq(p.value, V(X.ZERO, X.ZERO)))])
    return k.verify(lambda: getattr(make(model, amer, kw), m)(), goal, th, hyps=[X.le(X.ONE, n)], templates=[template(model)],
                    case=case(name, model, z, amer), what=m + (" defaults" if kw else ""))
