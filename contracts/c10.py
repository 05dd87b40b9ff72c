"""C10: lattice put-call parity and order of American and European prices.

The executed prices are the backward inductions V (call and put); the relations are proved about V by induction over the
steps, for every n: each lemma below is the base case or the induction step over one node, with the values of the
successor nodes and the powers named by variables.
"""
from .lattice import *

META = dict(trusted=["exact real arithmetic for the lattice recursion (rounding is not modelled)",
                     "induction over the steps of the lattice (base and step are discharged separately)",
                     "cosh x <= exp(x^2/2) for the equal-probability lattice upper bound"],
            assumptions=["S, K, t, sigma > 0, n >= 1; order relations: one-step probabilities in [0, 1], r >= 0"])


def mk(model, z, amer):
    def go(k):
        price_is_V(k, model, z, amer, "par")
    return go


for m_ in MODELS:
    for z_ in (1, -1):
        task(f"{m_} {'call' if z_ == 1 else 'put'}")(mk(m_, z_, False))


def growth(model):
    """one-step growth of the lattice forward"""
    if model == TRI:
        u, d, pu, pm, pd = tri()
        return add(mul(pu, u), pm, mul(pd, d))
    u, d, p = BIN[model]()
    return add(mul(p, u), mul(sub(1, p), d))


@task("one-step growth")
def gr(k):
    th = theory(**DOM)
    for m in MODELS:
        want = exp(mul(b, dt)) if m != "JRBinomialTreeOption" else mul(C(0.5), add(jr()[0], jr()[1]))
        k.lemma(f"{m}: expected one-step growth", X.eq(growth(m), want), th, [X.le(X.ONE, n)])
        if m == TRI:
            u, d, pu, pm, pd = tri()
            k.lemma(f"{m}: u d = 1", X.eq(mul(u, d), X.ONE), th, [X.le(X.ONE, n)])
            k.lemma(f"{m}: probabilities add to one", X.eq(add(pu, pm, pd), X.ONE), th, [X.le(X.ONE, n)])


@task("parity by induction")
def parity(k):
    """W = Vcall - Vput at node (j, k) equals s G^(n-j) - K D^(n-j), s the spot of the node, G = D * growth"""
    s, D, G, P = pos("s", "D", "G", "P")
    u, d = pos("u", "d")
    p, pu, pd, c2, c1, c0, q2, q1, q0 = real("p", "pu", "pd", "c2", "c1", "c0", "q2", "q1", "q0")
    x = X.var("x")
    k.lemma("base: call payoff - put payoff = x", X.eq(sub(X.pp(x), X.pp(neg(x))), x))
    # P = D^(n-j-1), H = G^(n-j-1)
    H = X.var("H")
    g = add(mul(p, u), mul(sub(1, p), d))
    w1, w0 = sub(mul(s, u, H), mul(K, P)), sub(mul(s, d, H), mul(K, P))
    hy = [X.eq(sub(c1, q1), w1), X.eq(sub(c0, q0), w0)]
    stepc = mul(D, add(mul(p, c1), mul(sub(1, p), c0)))
    stepp = mul(D, add(mul(p, q1), mul(sub(1, p), q0)))
    k.lemma("step (two branches)", X.eq(sub(stepc, stepp), sub(mul(s, D, g, H), mul(K, D, P))), theory(), hy)
    pm = sub(sub(1, pu), pd)
    g3 = add(mul(pu, u), pm, mul(pd, d))
    w = [sub(mul(s, f, H), mul(K, P)) for f in (d, X.ONE, u)]
    hy = [X.eq(sub(a_, b_), c_) for a_, b_, c_ in ((c0, q0, w[0]), (c1, q1, w[1]), (c2, q2, w[2]))]
    stepc = mul(D, add(mul(pu, c2), mul(pm, c1), mul(pd, c0)))
    stepp = mul(D, add(mul(pu, q2), mul(pm, q1), mul(pd, q0)))
    k.lemma("step (three branches)", X.eq(sub(stepc, stepp), sub(mul(s, D, g3, H), mul(K, D, P))), theory(), hy)
    # at the root
    th = theory(**DOM)
    h1 = [X.le(X.ONE, n)]
    k.lemma("root: discount power", X.eq(X.pow_(Df, n), exp(neg(mul(r, t)))), th, h1)
    k.lemma("root: forward power", X.eq(X.pow_(mul(Df, exp(mul(b, dt))), n), exp(mul(sub(b, r), t))), th, h1)


@task("order by induction")
def order(k):
    s, D, u, d = pos("s", "D", "u", "d")
    p, q, e1, e0, a1, a0, e2, a2, pay, g = real("p", "q", "e1", "e0", "a1", "a0", "e2", "a2", "pay", "g")
    Z, O = X.ZERO, X.ONE
    pr = [X.le(Z, p), X.le(p, O)]
    two = lambda x1, x0: mul(D, add(mul(p, x1), mul(sub(1, p), x0)))
    pu, pd = mul(q, q), mul(sub(1, q), sub(1, q))
    pm = mul(2, q, sub(1, q))
    k.lemma("three-branch probabilities", X.eq(sub(sub(1, pu), pd), pm))
    P, Q, R = real("P", "Q", "R")
    pr3 = [X.le(Z, P), X.le(Z, Q), X.le(Z, R), X.eq(add(P, Q, R), O)]
    three = lambda x2, x1, x0: mul(D, add(mul(P, x2), mul(Q, x1), mul(R, x0)))
    k.lemma("three-branch probabilities are not negative", X.and_(X.le(Z, pu), X.le(Z, pm), X.le(Z, pd)), theory(), [X.le(Z, q), X.le(q, O)])
    k.lemma("payoff >= 0", X.le(Z, X.pp(pay)))
    L = lambda nm, goal, h: k.lemma(nm, goal, theory(), h)
    L("European >= 0, two", X.le(Z, two(e1, e0)), pr + [X.le(Z, e1), X.le(Z, e0)])
    L("European >= 0, three", X.le(Z, three(e2, e1, e0)), pr3 + [X.le(Z, e1), X.le(Z, e0), X.le(Z, e2)])
    L("American >= European, two", X.le(two(e1, e0), X.max_(pay, two(a1, a0))), pr + [X.le(e1, a1), X.le(e0, a0)])
    L("American >= European, three", X.le(three(e2, e1, e0), X.max_(pay, three(a2, a1, a0))), pr3 + [X.le(e1, a1), X.le(e0, a0), X.le(e2, a2)])
    D1 = [X.le(D, O)]
    L("put <= K: payoff", X.le(X.pp(sub(K, s)), K), [])
    L("put <= K: step, two", X.le(X.max_(sub(K, s), two(a1, a0)), K), pr + D1 + [X.le(a1, K), X.le(a0, K)])
    L("put <= K: step, three", X.le(X.max_(sub(K, s), three(a2, a1, a0)), K), pr3 + D1 + [X.le(a1, K), X.le(a0, K), X.le(a2, K)])
    L("call <= s: payoff", X.le(X.pp(sub(s, K)), s), [])
    gr1 = [X.le(mul(D, add(mul(p, u), mul(sub(1, p), d))), O)]
    L("call <= s: continuation, two", X.le(two(a1, a0), two(mul(s, u), mul(s, d))), pr + [X.le(a1, mul(s, u)), X.le(a0, mul(s, d))])
    L("call <= s: step, two", X.le(X.max_(sub(s, K), a1), s), gr1 + [X.le(a1, mul(s, D, add(mul(p, u), mul(sub(1, p), d))))])
    L("call <= s: continuation, three", X.le(three(a2, a1, a0), three(mul(s, u), s, mul(s, d))), pr3 + [X.le(a1, s), X.le(a0, mul(s, d)), X.le(a2, mul(s, u))])
    gr3 = [X.le(mul(D, add(mul(P, u), Q, mul(R, d))), O)]
    L("call <= s: step, three", X.le(X.max_(sub(s, K), a1), s), gr3 + [X.le(a1, mul(s, D, add(mul(P, u), Q, mul(R, d))))])
    k.lemma("discounted growth", X.eq(mul(Df, exp(mul(b, dt))), exp(mul(sub(b, r), dt))), theory(**DOM), [X.le(O, n)])
    x, y = X.var("x"), pos("y")[0]
    k.lemma("(b - r) dt <= 0 when b <= r", X.le(mul(sub(b, r), y), Z), theory(), [X.le(b, r)])
    k.lemma("exp(x) <= 1 for x <= 0", X.le(exp(x), O), theory(x=(-1, 0)), [X.le(x, Z)])


for m_ in MODELS:
    for z_ in (1, -1):
        task(f"{m_} American {'call' if z_ == 1 else 'put'}")(mk(m_, z_, True))
