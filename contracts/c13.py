"""C13: the nine two-asset payoffs and the wrapper classes.

The payoff method is verified against the payoff table for all prices, quantities and strikes; the one-step price is verified for
every type as well, so the table is also established for what the pricing code evaluates; each wrapper class is verified, for
every n, against the backward induction with the payoff of the type it stands for.
"""
from .twoasset import *

META = dict(trusted=["exact real arithmetic"], assumptions=["S1, S2, K, K2, Q1, Q2, t, sigma1, sigma2 > 0, correlation in [-1, 1], r, b1, b2 arbitrary"])


@task("payoff table")
def table(k):
    c = Cut()
    if not c.ok:
        return
    for o in range(1, 10):
        for z in (1, -1):
            def run():
                ob = make(ALL, o, False)
                a = dict(option=o, z=z, S1=Sym(S1), S2=Sym(S2), Q1=Sym(Q1), Q2=Sym(Q2), K=Sym(K), K2=Sym(K2) if o in (4, 5) else None)
                return ob._payoff(**{q: v for q, v in a.items() if q in c.sig.parameters})
            k.verify(run, lambda p: [("payoff", eq(p.value, payoff(o, z, S1, S2)))], theory(**DOM), hyps=HYPS,
                     case=case("two", ALL, o, z, True), what=f"type {o} {'call' if z == 1 else 'put'}")


def onestep(o):
    def go(k):
        for z in (1, -1):
            tot = add(*[payoff(o, z, *legs(X.ONE, C(j), C(i), t)) for j in (0, 1) for i in (0, 1)])
            want = mul(C(0.25), exp(neg(mul(r, t))), tot)

            def run():
                ob = make(ALL, o, False, steps=1)
                return ob.call() if z == 1 else ob.put()
            k.verify(run, lambda p: [("one step", eq(p.value, want))], theory(**DOM), hyps=HYPS, case=case("two", ALL, o, z, False),
                     what=f"one step type {o} {'call' if z == 1 else 'put'}", budget=60)
    return go


for o_ in range(1, 10):
    task(f"one step type {o_}")(onestep(o_))


def wrap(cls, z, amer, default=False):
    def go(k):
        if not hasattr(sp, cls):
            return
        price(k, cls, WRAP[cls], z, amer, Cut().used(), default=default)
    return go


for c_ in WRAP:
    for z_ in (1, -1):
        for a_ in (False, True):
            task(f"{c_} {'american' if a_ else 'european'} {'call' if z_ == 1 else 'put'}")(wrap(c_, z_, a_))
    task(f"{c_} default style")(wrap(c_, 1, False, True))
