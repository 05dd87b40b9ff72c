"""C15: the Barone-Adesi-Whaley quadratic approximation."""
from .american import *

META = dict(trusted=["exact real arithmetic", "GBSOption.call/put and the normal cdf through their contracts (C03, C01)"],
            assumptions=["S, K, t, sigma, r > 0",
                         "partial correctness: termination of the Newton iteration is not proved"])
stub_normals(fo)
CUT = stub_gbs()


def parts(z, v):
    """the published pieces at a candidate critical price v: exponent, coefficient A(v), value-matching gap"""
    s2 = mul(sigma, sigma)
    n1 = sub(div(mul(2, b), s2), 1)
    M = div(mul(2, r), mul(s2, sub(1, exp(neg(mul(r, t))))))
    q = div(add(neg(n1), mul(z, sqrt(add(mul(n1, n1), mul(4, M))))), C(2))
    d1 = div(add(log(div(v, K)), mul(add(b, div(s2, C(2))), t)), mul(sigma, sqrt(t)))
    e = exp(mul(sub(b, r), t))
    A = mul(z, div(v, q), sub(1, mul(e, N(mul(z, d1)))))
    gap = sub(mul(z, sub(v, K)), add(GBS(z, v, K, t, r, b, sigma), A))
    return q, A, gap


def side(z):
    def go(k):
        def run():
            o = ba.BAWAmericanApproxOption(*syms(S, K, t, r, b, sigma))
            return o.call() if z == 1 else o.put()
        early = X.lt(b, r) if z == 1 else X.TRUE
        euro = GBS(z, S, K, t, r, b, sigma)

        def post(p):
            val = ev(p.value)
            if z == 1 and p.ctx.decide(early) is False:
                return [("european price when b >= r", eq(val, euro))]
            inputs = {x.args[0] for x in (S, K, t, r, b, sigma)}

            def news(e):
                return [v for v in sorted(e.fv, key=lambda v: v.id) if v.args[0] not in inputs and v.sort == "real"]
            fresh = news(p.ctx.rw(val)) or news(X.and_(*p.ctx.hyps))
            best = None
            for v in fresh or [None]:
                if v is None:
                    return [("european price", X.and_(X.not_(early), eq(val, euro)))]
                q, A, gap = parts(z, v)
                inside = X.lt(v, S) if z == -1 else X.lt(S, v)
                cont = add(euro, mul(A, X.pow_(div(S, v), q)))
                goals = [("value matching at the critical price", X.le(X.abs_(gap), mul(C(1e-5), K))),
                         ("immediate exercise", X.or_(inside, eq(val, mul(z, sub(S, K))))),
                         ("continuation formula", X.or_(X.not_(inside), eq(val, cont)))]
                best = best or goals
                if len(fresh) == 1 or G.ENG.prover.prove(p.ctx, goals[0][1]).status == "proved":
                    return goals
            return best
        th = amer_theory(sigma=(.15, .6), r=(.02, .15), b=(-.1, .0), t=(.2, 2), S=(20, 200), K=(20, 200))
        k.verify(run, post, th, hyps=[X.lt(X.ZERO, r)], case=lambda env, p: [["baw", dict({q: env.get(q, v) for q, v in GB.items()}, z=z)]],
                 reach=False, what="call" if z == 1 else "put")
    return go


GB = dict(S=100.0, K=95.0, t=.5, r=.08, b=.03, sigma=.3)
task("call")(side(1))
task("put")(side(-1))
