"""C16: the Bjerksund-Stensland (1993) price and trigger price."""
from .american import *

META = dict(trusted=["exact real arithmetic", "GBSOption.call/put and the normal cdf through their contracts (C03, C01)"],
            assumptions=["S, K, t, sigma > 0; r >= 0 where b < r for calls, r - b >= 0 for puts (the flat boundary needs it)"])
stub_normals(fo)
CUT = stub_gbs()


def bs93(S, K, t, r, b, s):
    """price and trigger of the call, b < r"""
    s2 = mul(s, s)
    beta = add(sub(C(0.5), div(b, s2)), sqrt(add(X.pow_(sub(div(b, s2), C(0.5)), C(2)), div(mul(2, r), s2))))
    binf = mul(div(beta, sub(beta, 1)), K)
    b0 = X.max_(K, mul(div(r, sub(r, b)), K))
    ht = neg(div(mul(add(mul(b, t), mul(2, s, sqrt(t))), b0), sub(binf, b0)))
    I = add(b0, mul(sub(binf, b0), sub(1, exp(ht))))

    def phi(g, H):
        g = C(g) if not isinstance(g, X.E) else g
        lam = mul(add(neg(r), mul(g, b), mul(C(0.5), g, sub(g, 1), s2)), t)
        d = neg(div(add(log(div(S, H)), mul(add(b, mul(sub(g, C(0.5)), s2)), t)), mul(s, sqrt(t))))
        kap = add(div(mul(2, b), s2), sub(mul(2, g), 1))
        return mul(exp(lam), X.pow_(S, g), sub(N(d), mul(X.pow_(div(I, S), kap), N(sub(d, div(mul(2, log(div(I, S))), mul(s, sqrt(t))))))))
    alpha = mul(sub(I, K), X.pow_(I, neg(beta)))
    cont = add(mul(alpha, X.pow_(S, beta)), neg(mul(alpha, phi(beta, I))), phi(1, I), neg(phi(1, K)), neg(mul(K, phi(0, I))), mul(K, phi(0, K)))
    return cont, I


def item(p, name):
    v = p.value
    if not isinstance(v, dict) or name not in v:
        raise Failed(f"result with entry {name} expected")
    return v[name]


def side(z):
    def go(k):
        a = (S, K, t, r, b, sigma) if z == 1 else (K, S, t, sub(r, b), neg(b), sigma)
        cont, I = bs93(*a)
        B, R = a[4], a[3]
        euro = GBS(1, *a)
        early = X.lt(B, R)

        def run():
            o = ba.BSAmericanApproxOption(*syms(S, K, t, r, b, sigma))
            return o.call() if z == 1 else o.put()

        def post(p):
            v, tr = item(p, "OptionPrice"), item(p, "TriggerPrice")
            out = [("european when never exercised", X.or_(early, eq(v, euro))),
                   ("immediate exercise at the trigger", X.or_(X.not_(early), X.lt(a[0], I), eq(v, sub(a[0], a[1])))),
                   ("flat boundary formula", X.or_(X.not_(early), X.le(I, a[0]), eq(v, cont)))]
            if p.ctx.decide(early) is True:
                out.append(("trigger price", eq(tr, I)))
            return out
        th = amer_theory(sigma=(.1, .8), r=(.02, .2), b=(-.15, .25), t=(.1, 2), S=(20, 200), K=(20, 200))
        k.verify(run, post, th, hyps=[X.or_(X.le(R, B), X.le(X.ZERO, R))], case=lambda env, p: [["bs93", dict({q: env.get(q, v) for q, v in GB.items()}, z=z)]],
                 what="call" if z == 1 else "put")
    return go


GB = dict(S=100.0, K=95.0, t=.5, r=.08, b=.03, sigma=.3)
task("call")(side(1))
task("put")(side(-1))
