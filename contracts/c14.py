"""C14: the Roll-Geske-Whaley American call on one dividend."""
from .american import *

META = dict(trusted=["exact real arithmetic", "GBSOption.call, the normal cdf and the bivariate normal through their contracts (C03, C01, C02)",
                     "the European call's delta lies in [0, 1] (C04/C05), used as instances of the mean value theorem"],
            assumptions=["S, K, t, td, D, sigma > 0, td < t, r >= 0, escrowed price S - D exp(-r td) > 0",
                         "a critical price beyond the solver's range (above 5e7) counts as never reached: there the result is the European price",
                         "termination of the bisection is not proved (each step halves the bracket)"])
stub_normals(fo)
CUT = stub_gbs()
td, D = pos("td", "D")
BIG = C(100000000)


def stub_cbnd():
    B = getattr(fo.base, "_Base", None)
    if B is not None and hasattr(B, "_CBND"):
        B._CBND = lambda self, a, b, rho: Sym(X.app("CBND", *[G.lift(x) for x in (a, b, rho)]))


stub_cbnd()


def cbnd_num(a, b, rho):
    import mpmath as mp
    return mp.quad(lambda x: mp.npdf(x) * mp.ncdf((b - rho * x) / mp.sqrt(1 - rho * rho)), [-12, a]) if a > -12 else mp.mpf(0)


TAU = sub(t, td)


def gap(x):
    """European call on the stock after the dividend minus what exercise just before it pays"""
    return sub(GBS(1, x, K, TAU, r, r, sigma), sub(add(x, D), K))


SX = sub(S, mul(D, exp(neg(mul(r, td)))))
SMALL = X.le(D, mul(K, sub(1, exp(neg(mul(r, TAU))))))


def rgw(I):
    s2 = div(mul(sigma, sigma), C(2))
    a1 = div(add(log(div(SX, K)), mul(add(r, s2), t)), mul(sigma, sqrt(t)))
    a2 = sub(a1, mul(sigma, sqrt(t)))
    b1 = div(add(log(div(SX, I)), mul(add(r, s2), td)), mul(sigma, sqrt(td)))
    b2 = sub(b1, mul(sigma, sqrt(td)))
    rho = neg(sqrt(div(td, t)))

    def M(a, b):
        return X.app("CBND", a, b, rho)
    return add(mul(SX, N(b1)), mul(SX, M(a1, neg(b1))), neg(mul(K, exp(neg(mul(r, t))), M(a2, neg(b2)))),
               neg(mul(sub(K, D), exp(neg(mul(r, td))), N(b2))))


def spots(p, *more):
    """spot arguments at which the path evaluated the European call on the ex-dividend stock"""
    out = {}
    for h in list(p.ctx.hyps) + list(more):
        for e in X.subterms(h):
            if e.op == "app" and e.args[0] == "GBS" and (e.args[4] is TAU or p.ctx.decide(X.eq(e.args[4], TAU)) is True):
                out[e.args[2]] = True
    return list(out)


def slopes(xs):
    """0 <= call(y) - call(x) <= y - x for 0 < x <= y"""
    out = []
    for i, x in enumerate(xs):
        for y in xs[i + 1:]:
            d = sub(GBS(1, y, K, TAU, r, r, sigma), GBS(1, x, K, TAU, r, r, sigma))
            out.append(X.or_(X.not_(X.lt(X.ZERO, x)), X.lt(y, x), X.and_(X.le(X.ZERO, d), X.le(d, sub(y, x)))))
            out.append(X.or_(X.not_(X.lt(X.ZERO, y)), X.lt(x, y), X.and_(X.le(d, X.ZERO), X.le(sub(y, x), d))))
    return X.and_(*out)


PREDS = [("gap is positive or spot zero", 1, lambda x: X.or_(X.eq(x, X.ZERO), X.le(X.ZERO, gap(x)))),
         ("gap is negative or spot at the limit", 1, lambda x: X.or_(X.eq(x, BIG), X.le(gap(x), X.ZERO))),
         ("gap was positive at half", 1, lambda x: X.or_(X.eq(x, S), X.lt(X.ZERO, gap(div(x, C(2)))))),
         ("positive", 1, lambda x: X.lt(X.ZERO, x)),
         ("nonnegative", 1, lambda x: X.le(X.ZERO, x)),
         ("ordered", 2, lambda x, y: X.le(x, y))]
GB = dict(S=80.0, K=82.0, t=1 / 3, td=.25, r=.06, D=4.0, sigma=.3)


def call(k, within):
    def run():
        return fo.basic_american_options.RollGeskeWhaleyOption(*syms(S, K, t, td, r, D, sigma)).call()

    def post(p):
        val = ev(p.value)
        if p.ctx.decide(SMALL) is True:
            return [("european price on the escrowed spot", eq(val, GBS(1, SX, K, t, r, r, sigma)))]
        euro = eq(val, GBS(1, SX, K, t, r, r, sigma))
        if G.ENG.prover.prove(p.ctx, euro).status == "proved":
            # a critical price beyond the solver's range: exercise is never optimal
            lim = div(BIG, C(2))
            return [("european price only beyond the solver's range",
                     X.or_(X.not_(slopes(spots(p) + [lim])), X.lt(BIG, S), X.lt(X.ZERO, gap(lim))))]
        best = None
        for I in spots(p):
            g = [("dividend large enough", X.not_(SMALL)), ("Roll-Geske-Whaley formula", eq(val, rgw(I)))]
            if best is None:
                best = g
            if G.ENG.prover.prove(p.ctx, g[1][1]).status == "proved":
                if not within:
                    return g
                near = X.or_(X.le(X.abs_(gap(I)), C(1e-4)), X.le(I, C(1e-4)))
                return g + [("critical price solves the exercise condition", X.or_(X.not_(slopes(spots(p))), near))]
        return best or [("Roll-Geske-Whaley formula", X.FALSE)]

    th = amer_theory(sigma=(.15, .6), r=(.02, .15), t=(.5, 2), td=(.1, .4), S=(20, 200), K=(20, 200), D=(.5, 15))
    th.specnum["CBND"] = cbnd_num
    k.verify(run, post, th, hyps=[X.lt(td, t), X.le(X.ZERO, r), X.lt(X.ZERO, SX), X.lt(gap(BIG), X.ZERO) if within else X.le(X.ZERO, gap(BIG))], preds=PREDS, reach=False,
             case=lambda env, p: [["rgw", {q: env.get(q, v) for q, v in GB.items()}]], what="call" if within else "call, critical price out of reach")


task("call")(lambda k: call(k, True))
task("call out of reach")(lambda k: call(k, False))


@task("is_call_optimal")
def optimal(k):
    def run():
        return bool(fo.basic_american_options.RollGeskeWhaleyOption(*syms(S, K, t, td, r, D, sigma)).is_call_optimal())
    k.verify(run, lambda p: [("early exercise can pay", X.not_(SMALL) if p.value else SMALL)], amer_theory(), hyps=[X.lt(td, t)],
             case=lambda env, p: [["rgw", {q: env.get(q, v) for q, v in GB.items()}]], what="is_call_optimal")
