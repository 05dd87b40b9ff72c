"""C22: Heston-Nandi price and greeks.

HA(phi, c, k), HB(phi, c, k) are the published coefficient recursions after k days at the argument c + i phi (ghost functions);
the loop of _fHN is proved to compute them for every number of days, and the option values are compared with the integrals
of the published integrand over them.
"""
from .common import *
from pyvc import engine as G
from pyvc.loops import ScalarCand, ArrayCand

hn = fo.heston_nandi_options
META = dict(trusted=["scipy.integrate.quad returns the integral; differentiation under the integral sign",
                     "complex exponential and logarithm (the same branch as the published formula)"],
            assumptions=["S, K > 0, n >= 1 whole days, r arbitrary, omega, alpha, beta > 0, stationary: beta + alpha (gamma + lambda + 1/2)^2 < 1"])
omega, alpha, beta = X.var("omega", "real", True), X.var("alpha", "real", True), X.var("beta", "real", True)
lamb, gamma = X.var("lamb"), X.var("gamma")
phi = X.var("phi", "real", True)
I = X.IMAG
gs = add(gamma, lamb, C(0.5))                       # risk-neutral asymmetry
den = sub(1, add(beta, mul(alpha, gs, gs)))
h0 = div(add(omega, alpha), den)
STAT = [X.lt(X.ZERO, den), X.le(X.ONE, n)]
DOM = dict(n=(1, 6), omega=lambda g: 10 ** g.uniform(-6, -4), alpha=lambda g: 10 ** g.uniform(-6, -5), beta=(0.3, 0.9),
           lamb=(-1.0, 3.0), gamma=(-80.0, 80.0), r=(0.0, 0.001), phi=(0.2, 30.0))


def sq(x):
    return mul(x, x)


def cphi(f, c):
    return add(mul(I, f), c)


def A_(f, c, k):
    return X.app("HA", f, c, k, sort="complex")


def B_(f, c, k):
    return X.app("HB", f, c, k, sort="complex")


def step(p, a, B):
    q = sub(1, mul(2, alpha, B))
    a1 = add(a, mul(p, r), mul(omega, B), neg(div(log(q), 2)))
    b1 = add(mul(p, sub(gs, C(0.5))), neg(div(mul(gs, gs), 2)), mul(beta, B), div(mul(C(0.5), sub(p, gs), sub(p, gs)), q))
    return a1, b1


def un(which):
    def f(ph, c, k):
        p = cphi(ph, c)
        base = (mul(p, r), add(mul(C(-0.5), p), div(mul(p, p), 2)))[which]
        if X.is_const(k) and X.cval(k) <= 1:
            return base
        k1 = sub(k, 1)
        nxt = step(p, A_(ph, c, k1), B_(ph, c, k1))[which]
        return X.ite(X.le(k, X.ONE), base, nxt)
    return f


def th_():
    th = theory(**DOM)
    th.unfolds["HA"], th.unfolds["HB"] = un(0), un(1)
    return th


def integrand(ph, c):
    p = cphi(ph, c)
    e = exp(add(neg(mul(I, ph, log(K))), mul(p, log(S)), A_(ph, c, n), mul(B_(ph, c, n), h0)))
    return div(e, mul(I, ph, X.PI))


def integral(f, c):
    v = X.fresh("phi", "real", True)
    return X.binder("integral", v, X.real_part(f(v, C(c))), X.ZERO, lift(G.INF))


def lift(x):
    return x if isinstance(x, X.E) else G.lift(x)


disc = exp(neg(mul(r, n)))


def price():
    return sub(add(div(S, 2), mul(disc, integral(integrand, 1))), mul(K, disc, add(C(0.5), integral(integrand, 0))))


def d_integrand(ph, c):
    return div(mul(cphi(ph, c), integrand(ph, c)), S)


def g_integrand(ph, c):
    p = cphi(ph, c)
    return div(mul(p, sub(p, 1), integrand(ph, c)), mul(S, S))


def delta():
    return sub(add(C(0.5), mul(disc, integral(d_integrand, 1))), mul(K, disc, integral(d_integrand, 0)))


def gam():
    return sub(mul(disc, integral(g_integrand, 1)), mul(K, disc, integral(g_integrand, 0)))


def tm(kind, ent, N_, en):
    """loop invariants offered: a changing value is HA or HB after the days so far, at the current phi"""
    ph = current_phi(en)
    if ph is None:
        return
    for c in (1, 0):
        for k0 in (1, 0, 2):
            for nm, f in (("HA", A_), ("HB", B_)):
                fn = lambda cnt, f=f, c=c, k0=k0: f(ph, C(c), add(cnt, k0))
                if kind == "array":
                    yield ArrayCand(lambda cnt: ent.shp, lambda cnt, ix: X.TRUE, lambda cnt, ix, fn=fn: fn(cnt), nm)
                else:
                    yield ScalarCand(fn, nm)


def current_phi(en):
    return getattr(en, "quadvar", None) or phi


def opt():
    return hn.HestonNandiOption(*syms(S, K), Sym(n), *syms(r, lamb, omega, alpha, beta, gamma))


GB = dict(S=90.0, K=100.0, n=5, r=2e-4, lamb=-0.5, omega=8e-5, alpha=6e-6, beta=0.7, gamma=60.0)


def case(name, **more):
    def f(env, p):
        e = {q: env.get(q, v) for q, v in GB.items()}
        if not 1 <= e["n"] <= 30:
            e["n"] = 5
        g = e["gamma"] + e["lamb"] + .5
        if not 1e-3 < 1 - e["beta"] - e["alpha"] * g * g < 1:
            e = dict(GB, n=e["n"])
        return [[name, dict(e, **more)]]
    return f


def val(run, goal, what, name, **more):
    def go(k):
        k.verify(run, lambda p: [(what, eq(p.value, goal()))], th_(), hyps=STAT, templates=[tm], case=case(name, **more), what=what,
                 defs=False)
    return go


def integrand_is(k):
    for c in (0, 1):
        for full in (True, False):
            def run(c=c, full=full):
                kw = {} if full else {"real": False}
                v = hn._fHN(Sym(phi), c, *syms(lamb, omega, alpha, beta, gamma, S, K), Sym(n), Sym(r), **kw)
                return v[0]
            want = integrand(phi, C(c))
            k.verify(run, lambda p, c=c: [("published integrand", eq(p.value, X.real_part(want) if full else want))], th_(), hyps=STAT,
                     templates=[tm], case=case("integrand", c=c), what=f"argument {c}{'' if full else ' complex'}", defs=False)


if hasattr(hn, "_fHN"):
    task("integrand for every number of days")(integrand_is)
task("call")(val(lambda: opt().call(), price, "characteristic-function price", "price", z=1))
task("put")(val(lambda: opt().put(), lambda: sub(add(price(), mul(K, disc)), S), "put-call parity", "price", z=-1))
task("delta")(lambda k: [val(f, g, w, "greek", which=w)(k) for f, g, w in (
    (lambda: opt().delta(), delta, "delta call default"), (lambda: opt().delta(call=True), delta, "delta call"),
    (lambda: opt().delta(call=False), lambda: sub(delta(), 1), "delta put"))])
task("gamma")(val(lambda: opt().gamma(), gam, "gamma", "greek", which="gamma"))


@task("published formulas: derivatives, model law, martingale")
def lemmas(k):
    k.lemma("delta is the derivative of the call", eq(X.diff(price(), S), delta()), th_(), STAT)
    k.lemma("gamma is the derivative of delta", eq(X.diff(delta(), S), gam()), th_(), STAT)
    # one day of the model: h' = omega + beta h + alpha (z - g sqrt h)^2 and return r - h/2 + sqrt(h) z, completed to a square in z
    p, B, h = X.var("p", sort="complex"), X.var("B", sort="complex"), X.var("h", "real", True)
    z = X.var("z")
    a1, b1 = step(p, X.ZERO, B)
    q = sub(1, mul(2, alpha, B))
    lhs = add(mul(p, add(r, neg(div(h, 2)), mul(sqrt(h), z))), mul(B, add(omega, mul(beta, h), mul(alpha, sq(sub(z, mul(gs, sqrt(h))))))),
              neg(div(mul(z, z), 2)))
    c1 = mul(sqrt(h), sub(p, mul(2, alpha, B, gs)))          # linear coefficient in z
    gauss = add(neg(mul(C(0.5), q, sq(sub(z, div(c1, q))))), add(a1, div(log(q), 2)), mul(b1, h))
    k.lemma("the recursion integrates the model's one-day law (completed square)", eq(lhs, gauss), th_())
    # martingale: with argument 1 the coefficients give the forward, with argument 0 the total mass
    for c, what in ((1, "forward"), (0, "total mass")):
        a0 = un(0)(X.ZERO, C(c), C(1))
        b0 = un(1)(X.ZERO, C(c), C(1))
        k.lemma(f"{what}: first day", X.and_(eq(b0, X.ZERO), eq(a0, mul(c, r))), th_())
        a, bb = step(cphi(X.ZERO, C(c)), mul(c, r, n), X.ZERO)
        k.lemma(f"{what}: next day", X.and_(eq(bb, X.ZERO), eq(a, mul(c, r, add(n, 1)))), th_())
