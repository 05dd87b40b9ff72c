"""Monte Carlo innovations, paths and payoffs on arrays (bounded: sampled arrays)"""
import warnings
from .common import *
import finoptions as fo
from scipy.stats import qmc, norm

mc = fo.monte_carlo_options


def dims(g):
    return g.pick(1, 2, 3, 8, 50), g.pick(1, 2, 5, 30)


@check(limit=20)
def wiener(seed):
    g = Gen(seed)
    m, d = dims(g)
    e = np.random.RandomState(seed).standard_normal((m, d))
    keep = e.copy()
    s, dt, b = g.u(.05, 1.5), g.u(.001, .5), g.u(-.3, .3)
    p = mc.WienerPath(e, s, dt, b)
    v = p.generate_path()
    w = np.array([[(b - s * s / 2) * dt + s * math.sqrt(dt) * x for x in row] for row in keep])
    if np.shape(v) != (m, d) or not np.allclose(v, w, rtol=1e-11, atol=1e-13):
        return f"increments {np.asarray(v).ravel()[:3]!r}, expected {w.ravel()[:3]!r}"
    if not np.array_equal(e, keep):
        return "the innovations were changed"
    if not np.array_equal(v, p.generate_path()):
        return "a second path of the same innovations differs"


@check(limit=20)
def payoff(seed, cls=None, z=1):
    g = Gen(seed)
    cls = cls or g.pick("PlainVanillaPayoff", "ArithmeticAsianPayoff")
    m, d = dims(g)
    x = np.random.RandomState(seed).standard_normal((m, d)) * g.u(.01, .5)
    S, K, t, r, b, s = g.u(5, 300), g.u(5, 300), g.u(.05, 3), g.u(-.05, .3), g.u(-.1, .3), g.u(.05, 1)
    K = S * g.u(.6, 1.5) if g.chance(.7) else K

    class Given(mc.Path):
        def generate_path(self, **k):
            return x
    keep = x.copy()
    o = getattr(mc, cls)(Given(None, s, t / d, b), S, K, t, r, b, s)
    v = o.call() if z == 1 else o.put()
    w = []
    for row in keep:
        run, acc = 0.0, []
        for q in row:
            run += q
            acc.append(S * math.exp(run))
        u = acc[-1] if cls.startswith("Plain") else math.fsum(acc) / d
        w.append(math.exp(-r * t) * max(z * (u - K), 0.0))
    if np.shape(v) != (m,):
        return f"{cls}: shape {np.shape(v)} for {m} paths"
    if not np.array_equal(x, keep):
        return f"{cls} changed the path"
    for k in range(m):
        if not abs(v[k] - w[k]) <= 1e-10 * (S + K) * (1 + max(abs(keep[k].sum()), 0)):
            return f"{cls} {'call' if z == 1 else 'put'} of path {k}: {v[k]!r}, expected {w[k]!r}"


class Recorder:
    """the points the generator hands out; optionally one of the first ones on the boundary of the cube"""
    def __init__(self, edge):
        self.points, self.edge = [], edge

    def __enter__(self):
        real = self.real = qmc.Sobol.random
        rec = self

        def random(self, *a, **k):
            x = real(self, *a, **k)
            if rec.edge is not None and len(rec.points) < 2:
                x[tuple(np.minimum((rec.edge[0], rec.edge[1]), np.array(x.shape) - 1))] = rec.edge[2]
            rec.points.append(x.copy())
            return x
        qmc.Sobol.random = random
        return self

    def __exit__(self, *a):
        qmc.Sobol.random = self.real


@check(limit=30)
def redraw(seed):
    """a draw with a point on the boundary of the unit cube never shows as an infinite innovation"""
    g = Gen(seed)
    m, d = g.pick(2, 3, 8), g.pick(1, 2, 5)
    with warnings.catch_warnings(), np.errstate(all="ignore"), Recorder((g.rng.randrange(m), g.rng.randrange(d), g.pick(0.0, 1.0))):
        warnings.simplefilter("ignore")
        v = mc.NormalSobolInnovations(m, d).sample_innovation()
    if np.shape(v) != (m, d) or not np.all(np.isfinite(v)):
        return f"innovations {v!r} after a draw on the boundary"


@check(limit=30)
def sobol(seed, scramble=None, eps=False):
    g = Gen(seed)
    m = g.pick(1, 2, 3, 4, 5, 7, 16, 64, 100)
    d = g.pick(1, 2, 5, 21)
    given = np.random.RandomState(seed).standard_normal((m, d)) if eps else None
    o = mc.NormalSobolInnovations(m, d, given)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        f = lambda: o.sample_innovation() if scramble is None else o.sample_innovation(scramble)
        v = f()
        with Recorder(None) as rec:
            v2 = f()
        if eps:
            return None if v is given or np.array_equal(v, given) else "the passed innovations are not used"
        raw = qmc.Sobol(d, scramble=False).random(m + 1)
    if np.shape(v) != (m, d) or np.shape(v2) != (m, d):
        return f"shape {np.shape(v)}, expected {(m, d)}"
    if not (np.all(np.isfinite(v)) and np.all(np.isfinite(v2))):
        return "innovations are not finite"
    if scramble is False:
        w = norm.ppf(raw[1:])
        if not np.allclose(v, w, rtol=1e-9, atol=1e-12) or not np.array_equal(v, v2):
            k = int(np.argmax(np.abs(v - w).max(axis=1)))
            return f"unscrambled point {k} of {m}: {v[k][:3]!r}, the quantiles of sequence point {k + 1} are {w[k][:3]!r}"
        return
    last = rec.points[-1] if rec.points else None
    if last is not None and np.shape(last) == (m, d) and not np.allclose(v2, norm.ppf(last), rtol=1e-9, atol=1e-12):
        return f"scrambled innovations {v2.ravel()[:3]!r}, the quantiles of the points drawn are {norm.ppf(last).ravel()[:3]!r}"
    if np.array_equal(v, v2):
        return "two scrambled draws are identical"
    if m & (m - 1) == 0:
        # a scrambled net of 2^k points has one point in each of the 2^k equal cells of every axis
        for x in (v, v2):
            cells = np.sort(np.floor(norm.cdf(x) * m * (1 - 1e-12)).astype(int), axis=0)
            off = np.abs(cells - np.arange(m)[:, None])
            if off.max() > 1 or (off > 0).mean() > .1:
                return "the points are not equidistributed normal quantiles"


def sample(g):
    s = g.rng.randint(1, 10 ** 7)
    for q in range(4):
        yield "wiener", dict(seed=s + q)
        yield "payoff", dict(seed=s + q, z=g.pick(1, -1))
    yield "redraw", dict(seed=s)
    yield "sobol", dict(seed=s, scramble=g.pick(None, True, False), eps=g.chance(.15))
