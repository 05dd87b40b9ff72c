"""C09: American lattice prices are the optimal-stopping value for every n."""
from .lattice import *

META = dict(trusted=["exact real arithmetic for the lattice recursion (rounding is not modelled)"],
            assumptions=["S, K, t, sigma > 0, n >= 1, r and b arbitrary; up and down factors differ (division by u - d)"])


def mk(model, z):
    def go(k):
        price_is_V(k, model, z, True, "lat")
        c = X.var("c")
        root = unfold(model, z, True)(X.ZERO, X.ZERO)
        # name the continuation value: the root is max(exercise, c)
        hy = [X.le(X.ONE, n)]
        k.lemma("root value is at least immediate exercise", X.le(mul(z, sub(S, K)), X.max_(mul(z, sub(S, K)), c)), theory(**DOM), hy)
        k.lemma("root value is max(exercise, continuation)", X.eq(root, X.max_(mul(z, sub(S, K)), unfold(model, z, False)(X.ZERO, X.ZERO))), theory(**DOM), hy)
    return go


for m_ in MODELS:
    for z_ in (1, -1):
        task(f"{m_} {'call' if z_ == 1 else 'put'}")(mk(m_, z_))
