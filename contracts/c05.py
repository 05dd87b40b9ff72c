"""C05: analytic greeks are the exact derivatives of the price."""
from .common import *

META = dict(
    trusted=["cut point: _CND is used through its contract N with N' = density (C01)"],
    assumptions=["S, K, t, sigma > 0"],
)
BASE = dict(S=100.0, K=95.0, t=0.7, r=0.05, b=0.02, sigma=0.3)
d_ = X.diff


def price(z, bb):
    return bs(S, K, t, r, bb, sigma, z)


def spec(z, bzero):
    """exact greeks of the price term; bzero: b is held at 0 (futures option)"""
    P = price(z, b)
    out = dict(delta=d_(P, S), gamma=d_(d_(P, S), S), vega=d_(P, sigma), theta=neg(d_(P, t)), CofC=d_(P, b))
    if bzero:
        sb = lambda e: X.subst(e, {b: X.ZERO})
        out = {k: sb(v) for k, v in out.items()}
        out["rho"] = d_(price(z, X.ZERO), r)
        out["lambda"] = div(mul(out["delta"], S), price(z, X.ZERO))
    else:
        # cost of carry moves with r: b - r fixed
        out["rho"] = add(d_(P, r), d_(P, b))
        out["lambda"] = div(mul(out["delta"], S), P)
    return out


CLS = {
    "GBSOption": lambda: fo.GBSOption(*syms(S, K, t, r, b, sigma)),
    "BlackScholesOption": lambda: fo.BlackScholesOption(*syms(S, K, t, r, b, sigma)),
    "Black76Option": lambda: fo.Black76Option(*syms(S, K, t, r, sigma)),
}


def mk(cname):
    def go(k):
        for z in (1, -1):
            call = z == 1
            sp, sp0 = spec(z, False), spec(z, True)

            def case(env, p):
                e = {q: env.get(q, v) for q, v in BASE.items()}
                if cname == "Black76Option":
                    e["b"] = 0.0
                return [["greek", dict(e, z=z, cls=cname)]]

            def run():
                o = CLS[cname]()
                out = dict(o.greeks(call))
                out2 = dict(delta=o.delta(call=call), theta=o.theta(call=call), vega=o.vega(), rho=o.rho(call=call),
                            gamma=o.gamma(), CofC=o.c_of_c(call=call))
                out2["lambda"] = o.lamb(call=call)
                return out, out2

            def post(p):
                res = []
                out, out2 = p.value
                if set(out) != {"delta", "theta", "vega", "rho", "lambda", "gamma", "CofC"}:
                    raise Failed(f"keys {sorted(out)}")
                for g in sorted(out):
                    for v, w in ((out[g], "greeks()"), (out2[g], g)):
                        if cname == "Black76Option":
                            res.append((f"{g} ({w})", eq(v, sp0[g])))
                        elif g == "rho":
                            zero = X.eq(b, X.ZERO)
                            res.append((f"rho at b = 0 ({w})", X.or_(X.not_(zero), eq(v, sp0[g]))))
                            res.append((f"rho at b != 0 ({w})", X.or_(zero, eq(v, sp[g]))))
                        else:
                            res.append((f"{g} ({w})", eq(v, sp[g])))
                return res
            k.verify(run, post, theory(), case=case, what="call" if call else "put")
    return go


for c in CLS:
    task(c)(mk(c))


@task("defaults")
def dflt(k):
    """greeks() without arguments are the call's; method='analytic' is the default"""
    def run():
        o = CLS["GBSOption"]()
        return [(o.greeks(), o.greeks(True)), (o.delta(), o.delta(True, "analytic")), (o.theta(), o.theta(True, "analytic")),
                (o.rho(), o.rho(True, "analytic")), (o.lamb(), o.lamb(True, "analytic")), (o.vega(), o.vega("analytic")),
                (o.gamma(), o.gamma("analytic")), (o.c_of_c(), o.c_of_c(True))]

    def post(p):
        g1, g2 = p.value[0]
        out = [(q, X.eq(ev(g1[q]), ev(g2[q]))) for q in g1]
        return out + [(f"default {i}", X.eq(ev(x), ev(y))) for i, (x, y) in enumerate(p.value[1:])]
    k.verify(run, post, theory(), what="defaults", case=lambda env, p: [["dfl", {q: env.get(q, v) for q, v in BASE.items()}]])


@task("textbook forms")
def text(k):
    """the derivative terms are Haug's closed forms (guards the differentiator)"""
    d1, d2 = d12(S, K, t, b, sigma)
    car = exp(mul(sub(b, r), t))
    disc = exp(neg(mul(r, t)))
    for z in (1, -1):
        sp = spec(z, False)
        zd1, zd2 = mul(z, d1), mul(z, d2)
        want = dict(delta=mul(z, car, N(zd1)), gamma=div(mul(car, nd(d1)), mul(S, sigma, sqrt(t))),
                    vega=mul(S, car, nd(d1), sqrt(t)), rho=mul(z, t, K, disc, N(zd2)), CofC=mul(z, t, S, car, N(zd1)),
                    theta=add(neg(div(mul(S, car, nd(d1), sigma), mul(2, sqrt(t)))), neg(mul(z, sub(b, r), S, car, N(zd1))),
                              neg(mul(z, r, K, disc, N(zd2)))))
        for g in want:
            k.lemma(f"{g} z={z}", X.eq(sp[g], want[g]), theory())
