"""C11: the returned trees hold the backward-induction values, for every n; the drawing shows them.

The appended one dimensional array `tr` is described by the ghost function W: W(n, m) is the value the layout puts at
position m.  Unfolding W at a symbolic position divides the position by n + 1 (binomial) or takes the integer square root
(trinomial), symbolically.
"""
import math
from fractions import Fraction
from .lattice import *

META = dict(trusted=["exact real arithmetic for the lattice recursion (rounding is not modelled)", "matplotlib (a recording stand-in)"],
            assumptions=["S, K, t, sigma > 0, n >= 1, r and b arbitrary; up and down factors differ (division by u - d)"],
            bounded=["the drawing loops: tree matrices with n = 1..4 steps and symbolic entries (the matrix itself is proved for every n)"])
n1 = add(n, 1)


def expand(e):
    """integer polynomial: {((var, power), ...): coefficient}"""
    if e.op=="const": return {():e.args[0]}
    if e.op=="var": return {((e,1),):Fraction(1)}
    if e.op=="add":
        r={}
        for x in e.args:
            for m,c in expand(x).items(): r[m]=r.get(m,0)+c
        return {m:c for m,c in r.items() if c}
    def mulp(p,q):
        r={}
        for m,c in p.items():
            for k,d in q.items():
                w=dict(m)
                for v,x in k: w[v]=w.get(v,0)+x
                key=tuple(sorted(w.items(),key=lambda t:str(t[0].args)))
                r[key]=r.get(key,0)+c*d
        return {m:c for m,c in r.items() if c}
    if e.op=="mul":
        r={():Fraction(1)}
        for x in e.args: r=mulp(r,expand(x))
        return r
    if e.op=="pow" and X.is_const(e.args[1]) and e.args[1].args[0]>=0 and e.args[1].args[0].denominator==1:
        r={():Fraction(1)}
        for _ in range(int(e.args[1].args[0])): r=mulp(r,expand(e.args[0]))
        return r
    return {((e,1),):Fraction(1)}
def coll(p):
    return X.add(*[X.mul(X.const(c),*[v if k==1 else X.pow_(v,X.const(k)) for v,k in m]) for m,c in p.items()]) if p else X.ZERO


def by(m, v):
    out={}
    for mono,c in expand(m).items():
        d=dict(mono); e=d.pop(v,0)
        out.setdefault(e,{})[tuple((x,k) for x,k in mono if x is not v)]=c
    out.setdefault(0,{})
    return {e:coll(p) for e,p in out.items()}
def divn(m):
    """m = (n+1) a + q with n not in q"""
    co=by(m,n); d=max(co); a=X.ZERO; carry=X.ZERO
    for e in range(d,0,-1):
        carry=sub(co.get(e,X.ZERO),carry)
        a=add(a,mul(carry,X.pow_(n,X.const(e-1))) if e>1 else carry)
    q=sub(co.get(0,X.ZERO),carry)
    return coll(expand(a)), coll(expand(q))


def bin_w(nn, m):
    def val(a, q):
        return X.ite(X.lt(q, a), X.ZERO, V(sub(nn, a), sub(q, a)))
    if X.is_const(m) and X.is_const(nn):
        a, q = divmod(int(m.args[0]), int(nn.args[0]) + 1)
        return val(X.const(a), X.const(q))
    a, q = divn(m)
    r = X.app("W2", m)
    for s in (1, -1, 0):
        qq = add(q, mul(n1, s))
        r = X.ite(X.and_(X.le(X.ZERO, qq), X.le(qq, n)), val(sub(a, s), qq), r)
    return r


def square(m):
    """linear L with m - L*L linear"""
    p = expand(m)
    sq = [(mono, c) for mono, c in p.items() if len(mono) == 1 and mono[0][1] == 2]
    if not sq:
        return None
    v0, c0 = sq[0][0][0][0], sq[0][1]
    r = math.isqrt(int(c0)) if c0 > 0 else 0
    if r == 0 or r * r != c0:
        return None
    L = {((v0, 1),): Fraction(r)}
    for mono, c in p.items():
        if len(mono) == 2 and sum(k for _, k in mono) == 2 and v0 in dict(mono):
            o = [v for v, _ in mono if v is not v0][0]
            L[((o, 1),)] = c / (2 * r)
    L = coll(L)
    rest = expand(sub(m, mul(L, L)))
    if any(sum(k for _, k in mono) > 1 for mono in rest):
        return None
    return L, coll(rest)


def tri_w(nn, m):
    rem = coll(expand(sub(mul(add(nn, 1), add(nn, 1)), m)))       # (j + 1)^2 - i
    if X.is_const(rem):
        q = int(rem.args[0])
        if q <= 0:
            return X.app("W2", m)
        j = math.isqrt(q - 1)
        return V(X.const(j), X.const((j + 1) ** 2 - q))
    s = square(rem)
    if s is None:
        return None
    L, rest = s
    r = X.app("W2", m)
    for LL in (L, neg(L)):
        for k in (-1, 2, 1, 0):
            i, j = sub(add(mul(2 * k, LL), k * k), rest), add(LL, k - 1)
            r = X.ite(X.and_(X.le(X.ZERO, j), X.le(X.ZERO, i), X.le(i, mul(2, j))), V(j, i), r)
    return r


def tm(model):
    base = template(model)

    def f(kind, ent, N_, en):
        if kind != "array" or N_ is None or len(ent.shp) != 1:
            return
        yield from base(kind, ent, N_, en)
        if model == TRI:
            total = lambda c: (sub(mul(n1, n1), mul(sub(n, c), sub(n, c))),)
        else:
            total = lambda c: (mul(n1, add(c, 1)),)
        for shape in (total, lambda c: (add(ent.shp[0], c),)):
            yield ArrayCand(shape, lambda c, ix: X.TRUE, lambda c, ix: X.app("W", n, ix[0]), "W")
    return f


i, j = X.var("i", "int"), X.var("j", "int")


def entry(model, p):
    a = p.value
    if len(getattr(a, "shp", ())) != 2:
        raise Failed("two dimensional tree expected")
    rows = add(mul(2, n), 1) if model == TRI else n1
    e = a.get(i, j)
    nh = [X.lt(i, X.ZERO), X.le(rows, i), X.lt(j, X.ZERO), X.lt(n, j)]
    out = [("shape", X.and_(X.eq(a.shp[0], rows), X.eq(a.shp[1], n1)))]
    if model == TRI:
        m = sub(add(i, j), n)
        ins = [X.le(X.ZERO, m), X.le(m, mul(2, j))]
        out += [("nodes", X.or_(*nh, X.le(j, X.ZERO), *[X.not_(h) for h in ins], X.eq(e, V(j, sub(mul(2, j), m))))),
                ("root", X.eq(a.get(n, X.ZERO), V(X.ZERO, X.ZERO))),
                ("outside zero", X.or_(*nh, X.and_(*ins), X.eq(e, X.ZERO)))]
    else:
        out += [("nodes", X.or_(*nh, X.lt(j, i), X.eq(e, V(j, sub(j, i))))),
                ("root", X.eq(a.get(X.ZERO, X.ZERO), V(X.ZERO, X.ZERO))),
                ("outside zero", X.or_(*nh, X.le(i, j), X.eq(e, X.ZERO)))]
    return out


def mk(model, z, amer):
    def go(k):
        th = theory(**DOM)
        th.unfolds["V"] = unfold(model, z, amer)
        th.unfolds["W"] = tri_w if model == TRI else bin_w
        th.eager = ("W",)
        m = "call" if z == 1 else "put"
        k.verify(lambda: getattr(make(model, amer), m)(tree=True), lambda p: entry(model, p), th, hyps=[X.le(X.ONE, n)],
                 templates=[tm(model)], case=case("tree", model, z, amer), what="tree", budget=60)
    return go


for m_ in MODELS:
    for z_ in (1, -1):
        for a_ in (False, True):
            task(f"{m_} {'american' if a_ else 'european'} {'call' if z_ == 1 else 'put'}")(mk(m_, z_, a_))


# ------------------------------------------------------------------ drawing
def drawn(p, model, N_, digits):
    """every node is annotated with its rounded tree entry, nothing else is"""
    seen = {}
    out = []

    def T(x, y):
        return p.value.get(C(N_ - y if model == TRI else (x - y) // 2), C(x))
    for name, a, kw in p.events:
        if name != "plt.annotate":
            continue
        kw = dict(kw)
        x, y = (int(G.lift(q).args[0]) for q in kw["xy"])
        text = a[0] if a else kw["text"]
        out.append((f"node ({x}, {y})", eq(text, rnd(T(x, y), digits))))
        seen[x, y] = 1
    want = {(x, y) for x in range(N_ + 1) for y in range(-x, x + 1, 1 if model == TRI else 2)}
    if set(seen) != want:
        raise Failed(f"nodes drawn {sorted(seen)} expected {sorted(want)}")
    return out


def rnd(e, digits):
    return G.lift(round(Sym(e), digits))


def plots(model, call):
    def go(k):
        for N_ in (1, 2, 3, 4):
            for digits in (2, 4):
                def run():
                    o = getattr(bt, model)(*syms(S, K, t, r, b, sigma), type="european", n=N_)
                    tree = (o.call if call else o.put)(tree=True)
                    before = dict(o.__dict__)
                    if call and digits == 2:
                        o.plot()
                    else:
                        o.plot(call=call, digits=digits)
                    assert all(o.__dict__.get(q) is v for q, v in before.items()) and len(before) == len(o.__dict__)
                    return tree
                k.verify(run, lambda p: drawn(p, model, N_, digits), theory(), what=f"[bounded n={N_}] plot digits={digits}", witness=False)
    return go


for m_ in MODELS:
    for c_ in (True, False):
        task(f"{m_} plot {'call' if c_ else 'put'}")(plots(m_, c_))
