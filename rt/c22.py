"""Heston-Nandi prices and greeks against an independent integration of the characteristic function (bounded: sampled options)"""
import warnings
from numpy.polynomial.legendre import leggauss
from .common import *
import finoptions as fo

hn = fo.heston_nandi_options
GX, GW = leggauss(64)


def coef(ph, c, n, r, lamb, omega, alpha, beta, gamma):
    g = gamma + lamb + .5
    p = c + 1j * np.asarray(ph)
    a, b = p * r, -.5 * p + p * p / 2
    for _ in range(n - 1):
        q = 1 - 2 * alpha * b
        a, b = a + p * r + b * omega - np.log(q) / 2, p * (g - .5) - g * g / 2 + beta * b + .5 * (p - g) ** 2 / q
    return p, a + b * (omega + alpha) / (1 - beta - alpha * g * g)


def f(ph, c, S, K, n, **m):
    p, e = coef(ph, c, n, **m)
    return np.exp(-1j * ph * math.log(K) + p * math.log(S) + e) / (1j * ph) / math.pi


def integrals(S, K, n, **m):
    g = m["gamma"] + m["lamb"] + .5
    V = n * (m["omega"] + m["alpha"]) / (1 - m["beta"] - m["alpha"] * g * g)
    L = 60 / math.sqrt(V)
    w = min(L / 24, 12 / (abs(math.log(S / K)) + 1e-3))
    k = int(math.ceil(L / w))
    if k > 400:
        raise Skip
    x = (np.arange(k)[:, None] + (GX[None, :] + 1) / 2).ravel() * (L / k)
    wt = np.tile(GW, k) * (L / k) / 2
    f1, f0 = f(x, 1, S, K, n, **m), f(x, 0, S, K, n, **m)
    p1, p0 = 1 + 1j * x, 1j * x
    if max(abs(f1[-1] * x[-1] ** 3), abs(f0[-1] * x[-1] ** 3)) > 1e-9:
        raise Skip
    s = lambda v: float(np.sum(wt * v.real))
    d = math.exp(-m["r"] * n)
    call = S / 2 + d * s(f1) - K * d * (.5 + s(f0))
    delta = .5 + d * s(p1 * f1) / S - K * d * s(p0 * f0) / S
    gamma = d * (s(p1 * (p1 - 1) * f1) - K * s(p0 * (p0 - 1) * f0)) / S ** 2
    return call, delta, gamma


def quadrature(which, S, K, n, **m):
    """The same published integrals by the adaptive rule the code trusts (scipy quad), whose error estimate is rarely far too optimistic"""
    from scipy.integrate import quad
    w = {"price": lambda p: 1, "delta": lambda p: p / S, "gamma": lambda p: p * (p - 1) / S ** 2}[which]
    I = lambda c: quad(lambda x: float((w(c + 1j * x) * f(np.array([x]), c, S, K, n, **m))[0].real), 0, np.inf, epsabs=1.49e-8, epsrel=1.49e-8)[0]
    d = math.exp(-m["r"] * n)
    base = {"price": S / 2 - K * d / 2, "delta": .5, "gamma": 0.}[which]
    return base + d * I(1) - K * d * I(0)


def opt(a):
    a = dict(a)
    n = a.pop("n")
    return hn.HestonNandiOption(S=a.pop("S"), K=a.pop("K"), t=n, **a)


def num(x):
    return float(np.asarray(x).reshape(-1)[0])


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return num(fn())


@check(limit=20)
def price(z, **a):
    c = integrals(**a)[0]
    want = c if z == 1 else c + a["K"] * math.exp(-a["r"] * a["n"]) - a["S"]
    got = quiet(lambda: opt(a).call() if z == 1 else opt(a).put())
    if not abs(got - want) <= TOL * (a["S"] + a["K"]) and not abs(got - want + c - quiet(lambda: quadrature("price", **a))) <= TOL * (a["S"] + a["K"]):
        return f"{'call' if z == 1 else 'put'} {got!r}, characteristic-function price {want!r}"


@check(limit=20)
def greek(which, **a):
    _, d, g = integrals(**a)
    o = opt(a)
    if which == "gamma":
        got, want, sc = quiet(o.gamma), g, (1 + a["K"] / a["S"]) / a["S"]
    else:
        got = quiet(lambda: o.delta() if which.endswith("default") else o.delta(call=which == "delta call"))
        want, sc = d - (which == "delta put"), 1 + a["K"] / a["S"]
    w = "gamma" if which == "gamma" else "delta"
    if not abs(got - want) <= TOL * sc and not abs(got - want + (g if w == "gamma" else d) - quiet(lambda: quadrature(w, **a))) <= TOL * sc:
        return f"{which} {got!r}, derivative of the price {want!r}"


@check(limit=20)
def integrand(c, phi=3.0, **a):
    m = dict(a)
    S, K, n = m.pop("S"), m.pop("K"), m.pop("n")
    want = complex(f(np.array([phi]), c, S, K, n, **m)[0])
    args = (phi, c, a["lamb"], a["omega"], a["alpha"], a["beta"], a["gamma"], S, K, n, a["r"])
    got = complex(np.asarray(hn._fHN(*args, real=False)).reshape(-1)[0])
    re = num(hn._fHN(*args))
    if not (abs(got - want) <= 1e-9 * (1 + abs(want)) and abs(re - want.real) <= 1e-9 * (1 + abs(want))):
        return f"integrand {got!r} / {re!r}, published {want!r}"


TOL = 1e-5


def params(g):
    while True:
        n = int(g.pick(1, 1, 2, 2, 3, 4, 5, 7, 10, 10, 15, 21, 30, 60))
        if g.chance(.12):
            n = int(g.u(60, 400)) if g.chance(.5) else max(1, round(g.lit(1, 400) or 5) + g.pick(-1, 0, 1))
        vol = g.v(.1, .6, log=True) / math.sqrt(252)
        beta, lamb = g.v(0, .95), g.v(-1, 4)
        alpha = g.pick(1e-6, 3e-6, 1e-5, 6e-5) * g.u(.5, 1.5)
        room = 1 - beta
        gs = math.sqrt(room / alpha) * g.u(-.9, .9)
        omega = vol * vol * (1 - beta - alpha * gs * gs) - alpha
        if omega > 0:
            break
    S = g.v(20, 300, log=True)
    K = S * math.exp(g.pick(0, .5, 1, 2) * g.u(-1, 1) * vol * math.sqrt(n))
    if g.chance(.2):
        K = S
    return dict(S=S, K=K, n=n, r=g.pick(0.0, g.u(-.02, .12) / 252), lamb=lamb, omega=omega, alpha=alpha, beta=beta, gamma=gs - lamb - .5)


def sample(g):
    while True:
        a = params(g)
        for z in (1, -1):
            yield "price", dict(a, z=z)
        for w in ("delta default", "delta call", "delta put", "gamma"):
            yield "greek", dict(a, which=w)
        for c in (0, 1):
            yield "integrand", dict(a, c=c, phi=g.v(.1, 60))
