"""C08: European lattice prices equal backward induction for every n."""
from .lattice import *

META = dict(trusted=["exact real arithmetic for the lattice recursion (rounding is not modelled)"],
            assumptions=["S, K, t, sigma > 0, n >= 1, r and b arbitrary; up and down factors differ (division by u - d)"])


def mk(model, z):
    def go(k):
        price_is_V(k, model, z, False, "lat")
        if z == 1:
            price_is_V(k, model, z, False, "lat", kw="default")
    return go


for m_ in MODELS:
    for z_ in (1, -1):
        task(f"{m_} {'call' if z_ == 1 else 'put'}")(mk(m_, z_))
