"""Monte Carlo driver against a direct evaluation with arbitrary models (bounded: sampled configurations)"""
import contextlib
import io
import re
import warnings
from .common import *
import finoptions as fo

mc = fo.monte_carlo_options


class Inno:
    """one stored array per draw"""
    def __init__(self, mc_paths, path_length, eps=None):
        self.a, self.draws = (mc_paths, path_length, eps), []
        self.rs = np.random.RandomState(17)
        LAST[:] = [self]

    def sample_innovation(self, *a):
        e = self.rs.standard_normal(self.a[:2]) * 1.3 + .2
        self.draws.append(e.copy())
        return e


LAST = []


class Path:
    def __init__(self, eps, sigma, dt, b):
        self.eps, self.par = np.array(eps), (sigma, dt, b)

    def generate_path(self):
        return self.eps * self.par[0] * math.sqrt(self.par[1]) + self.par[2] * self.par[1]


class Payoff:
    def __init__(self, path, *par):
        self.path, self.par = path, par

    def rows(self):
        return value(self.path.generate_path(), self.par)

    def call(self):
        return self.rows()

    def put(self):
        return -2 * self.rows() + 1


def value(x, par):
    w = np.cos(np.arange(x.shape[1]) + 1.0)
    S, K, t, r, b, sigma = par
    return np.sin(x @ w * 3 + S / K) * math.exp(-r * t) + (S - K) / (S + K) + b * (x @ w) + np.abs(x).max(axis=1) * sigma


def market(g):
    return dict(S=g.u(5, 300), K=g.u(5, 300), t=g.u(.05, 3), r=g.u(-.05, .2), b=g.u(-.1, .2), sigma=g.u(.05, 1))


def setup(seed):
    g = Gen(seed)
    n = dict(mc_loops=g.pick(1, 2, 3, 7), path_length=g.pick(1, 2, 5, 12), mc_paths=g.pick(2, 3, 8, 33))
    return g, n, market(g)


def reference(draw, z, anti, std, n, P):
    e = draw
    if anti:
        e = np.concatenate((e, -e))
    if std:
        e = (e - e.sum() / e.size) / math.sqrt(((e - e.sum() / e.size) ** 2).sum() / e.size)
    dt = P["t"] / n["path_length"]
    v = value(e * P["sigma"] * math.sqrt(dt) + P["b"] * dt, (P["S"], P["K"], P["t"], P["r"], P["b"], P["sigma"]))
    return float(np.sum(v if z == 1 else -2 * v + 1) / len(v))


def run(o, z):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return o.call() if z == 1 else o.put()


def compare(v, draws, z, anti, std, n, P, what):
    if np.shape(v) != (n["mc_loops"],):
        return f"{what}: {np.shape(v)} values for {n['mc_loops']} loops"
    if len(draws) != n["mc_loops"]:
        return f"{what}: {len(draws)} draws for {n['mc_loops']} loops"
    for k, d in enumerate(draws):
        w = reference(d, z, anti, std, n, P)
        if not abs(float(v[k]) - w) <= 1e-9 * (1 + abs(w)):
            return f"{what} (antithetic={anti}, standardization={std}): loop {k} is {float(v[k])!r}, the mean payoff of its draw is {w!r}"


@check(limit=20)
def driver(seed, z=1, anti=False, std=False):
    g, n, P = setup(seed)
    o = mc.MonteCarloOption(*n.values(), *P.values(), Inno, Path, Payoff, antithetic=anti, standardization=std, eps="tag") if g.chance(.5) else \
        mc.MonteCarloOption(**n, **P, Innovation=Inno, Path=Path, Payoff=Payoff, antithetic=anti, standardization=std, eps="tag")
    gen, = LAST
    if gen.a != (n["mc_paths"], n["path_length"], "tag"):
        return f"generator built with {gen.a!r}"
    m = n["mc_loops"]
    a = run(o, z)
    bad = compare(a, gen.draws[:m] if len(gen.draws) == m else gen.draws, z, anti, std, n, P, "first valuation")
    if bad:
        return bad
    keep = np.array(a)
    c = run(o, -z)
    return compare(c, gen.draws[m:], -z, anti, std, n, P, "second valuation") or \
        (None if np.array_equal(a, keep) else "the second valuation changed the first result")


@check(limit=20)
def trace(seed, z=1):
    g, n, P = setup(seed)
    make = lambda **k: mc.MonteCarloOption(*n.values(), *P.values(), Inno, Path, Payoff, **k)
    want = run(make(), z)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        got = run(make(trace=True), z)
    if not np.array_equal(got, want):
        return "trace changes the values"
    rows = [[float(x) for x in re.findall(r"(?<![\w.])[-+]?\d+(?:\.\d*)?(?:e[-+]?\d+)?", s)] for s in f.getvalue().splitlines()]
    rows = [q for q in rows if q]
    if len(rows) != len(want):
        return f"{len(rows)} trace lines for {len(want)} loops"
    for k, q in enumerate(rows):
        w = [k, want[k], float(np.sum(want[:k + 1])) / (k + 1)]
        if len(q) != 3 or any(abs(x - y) > 1e-9 * (1 + abs(y)) for x, y in zip(q, w)):
            return f"trace line {k}: {q!r}, expected loop, mean and running mean {w!r}"


@check(limit=20)
def infinite(seed, z=1):
    """an infinite mean is announced and the loop's innovations, path and payoffs are returned"""
    g, n, P = setup(seed)
    at = g.rng.randrange(n["mc_loops"])

    class Inf(Payoff):
        def rows(self):
            v = super().rows()
            if len(LAST[0].draws) == at + 1:
                v[-1] = np.inf if z == 1 else -np.inf
            return v
    o = mc.MonteCarloOption(*n.values(), *P.values(), Inno, Path, Inf)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = o.call() if z == 1 else o.put()
    if not any("Inf" in str(x.message) for x in w):
        return "no warning of the infinite mean"
    if not (isinstance(r, tuple) and len(r) == 3 and np.array_equal(r[0], LAST[0].draws[-1]) and isinstance(r[1], Path) and np.isinf(r[2]).any()):
        return f"infinite mean in loop {at}: returned {type(r).__name__}"


def gbs_(P, z):
    return gbs(P["S"], P["K"], P["t"], P["r"], P["b"], P["sigma"], z)


@check(limit=60)
def converges(seed, z=1, anti=False):
    """built-in models: the mean over the loops approaches the closed form"""
    g = Gen(seed)
    P = market(g)
    P.update(t=g.u(.05, 1), sigma=g.u(.1, .5))
    P["K"] = P["S"] * g.u(.8, 1.2)
    np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = mc.MonteCarloOption(8, 4, 1024, *P.values(), mc.NormalSobolInnovations, mc.WienerPath, mc.PlainVanillaPayoff, antithetic=anti)
        v = o.call() if z == 1 else o.put()
    w = gbs_(P, z)
    if not abs(float(np.mean(v)) - w) <= .02 * P["S"] * P["sigma"] * math.sqrt(P["t"]):
        return f"8 x 1024 paths give {float(np.mean(v))!r}, closed form {w!r}"


def sample(g):
    s = g.rng.randint(1, 10 ** 7)
    z = g.pick(1, -1)
    yield "driver", dict(seed=s, z=z, anti=g.chance(.5), std=g.chance(.5))
    yield "trace", dict(seed=s, z=z)
    yield "infinite", dict(seed=s, z=z)
    if g.chance(.1):
        yield "converges", dict(seed=s, z=z, anti=g.chance(.5))
