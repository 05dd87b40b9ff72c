"""Heston-Nandi GARCH: simulation, filter, likelihood and fit against a scalar reference (bounded: sampled series)"""
import contextlib
import io
import warnings
from .common import *
import finoptions as fo

hn = fo.heston_nandi_options


def variances(z, n, lamb, omega, alpha, beta, gamma, rf, x=None):
    """variances and innovations (or returns when x is None) day by day"""
    h, out = [], []
    for k in range(n):
        h.append((omega + alpha) / (1 - alpha * gamma ** 2 - beta) if k == 0 else
                 omega + alpha * (zz[-1] - gamma * math.sqrt(h[-1])) ** 2 + beta * h[-1])
        s = math.sqrt(h[-1])
        if k == 0:
            zz = []
        zz.append(z[k] if x is None else (x[k] - rf - lamb * h[-1]) / s)
        out.append(rf + lamb * h[-1] + s * zz[-1])
    return np.array(h), np.array(zz), np.array(out)


def stationary(g, symmetric=False):
    while True:
        P = dict(lamb=g.u(-1, 5), omega=10 ** g.u(-6, -3), alpha=10 ** g.u(-6, -3.5), beta=g.u(.05, .9), gamma=0.0 if symmetric else g.u(-60, 60),
                 rf=g.pick(0.0, g.u(-1e-3, 1e-3)))
        if 1 - P["alpha"] * P["gamma"] ** 2 - P["beta"] > .02:
            return P


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-8 * (np.abs(b) + np.max(np.abs(b)) * 1e-3 + 1e-12)))


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f()


@check(limit=20)
def simulation(seed, mode=None):
    g = Gen(seed)
    P = stationary(g)
    mode = mode or g.pick("both", "passed", "drawn", "start passed", "start drawn", "passed, start drawn")
    n, m = g.pick(1, 2, 5, 40, 500), g.pick(1, 3, 50)
    rs = np.random.RandomState(seed)
    kw = dict(P, n=n)
    a, b = rs.standard_normal(n), rs.standard_normal(m)
    if "start" in mode or mode == "both":
        kw["n_start"] = m
    else:
        m = 0
    if mode in ("both", "passed", "passed, start drawn"):
        kw["inno"] = a.copy()
    if mode in ("both", "start passed"):
        kw["inno_start"] = b.copy()
    np.random.seed(seed)
    got = quiet(lambda: hn.hngarch_sim(**kw))
    if np.shape(got) != (n,):
        return f"{mode}: shape {np.shape(got)}, expected {(n,)}"
    for q, v in (("inno", a), ("inno_start", b)):
        if q in kw and not np.array_equal(kw[q], v):
            return f"{mode}: {q} was changed"
    if mode in ("both", "passed"):
        z = np.concatenate((b, a)) if m else a
        want = variances(z, n + m, **P)[2][m:]
        if not near(got, want):
            k = int(np.argmax(np.abs(np.asarray(got) - want)))
            return f"{mode}: return {k} is {got[k]!r}, the recursion gives {want[k]!r}"
        return
    # drawn innovations: the returns imply them; the implied ones must be those drawn
    np.random.seed(seed)
    if "inno" not in kw:
        a = np.random.normal(0, 1, n)
    if m and "inno_start" not in kw:
        b = np.random.normal(0, 1, m)
    want = variances(np.concatenate((b, a)) if m else a, n + m, **P)[2][m:]
    if not near(got, want) and m == 0:
        z = variances(None, n, x=got, **P)[1]
        if n < 40 or abs(np.mean(z)) < 6 / math.sqrt(n) and abs(np.std(z) - 1) < 6 / math.sqrt(n):
            return                                  # other standard draws
        return f"{mode}: implied innovations have mean {np.mean(z)!r}, deviation {np.std(z)!r}"


def logit(p):
    return -math.log((1 - p) / p)


@check(limit=20)
def likelihood(seed, symmetric=None):
    g = Gen(seed)
    symmetric = g.chance(.5) if symmetric is None else symmetric
    P = stationary(g, symmetric)
    n = g.pick(1, 2, 10, 200)
    x = variances(np.random.RandomState(seed).standard_normal(n), n, **P)[2] * g.u(.5, 2)
    x0 = [P["lamb"], logit(P["omega"]), logit(P["alpha"]), logit(P["beta"]), g.u(-5, 5) if symmetric else P["gamma"]]
    keep = x.copy()
    o = quiet(lambda: hn._llhHNGarch(list(x0), g.chance(.2), symmetric, P["rf"], x, True))
    v = quiet(lambda: hn._llhHNGarch(np.array(x0), False, symmetric, P["rf"], x))
    h, z, _ = variances(None, n, x=x, **P)
    want = float(np.sum(.5 * math.log(2 * math.pi) + .5 * z * z + .5 * np.log(h)))
    if not np.array_equal(x, keep):
        return "the series was changed"
    if not near(o.h, h) or not near(o.z, z):
        return f"filter (symmetric={symmetric}, n={n}): h {np.asarray(o.h)[:4]!r} z {np.asarray(o.z)[:4]!r}, recursion {h[:4]!r} {z[:4]!r}"
    for u in (o.llhHNGarch, v):
        if np.isfinite(want) and want < 500 * n and not abs(float(u) - want) <= 1e-8 * (n + abs(want)):
            return f"negative log-likelihood {float(u)!r}, Gaussian value {want!r}"


@check(limit=60)
def fit(seed, symmetric=None, given=None):
    g = Gen(seed)
    symmetric = g.chance(.5) if symmetric is None else symmetric
    given = g.pick("all", "omega", "") if given is None else given
    P = stationary(g, True)
    P.update(alpha=10 ** g.u(-5, -3.7), omega=10 ** g.u(-5, -3.7), beta=g.u(.3, .8))
    n = g.pick(30, 80, 150)
    x = variances(np.random.RandomState(seed).standard_normal(n), n, **P)[2]
    kw = dict(lamb=P["lamb"], beta=P["beta"], rf=P["rf"], symmetric=symmetric, trace=g.chance(.2))
    if given:
        kw["omega"] = P["omega"]
    if given == "all":
        kw["alpha"] = P["alpha"]
    if not symmetric or g.chance(.5):
        kw["gamma"] = g.u(-3, 3)
    keep = x.copy()
    o = quiet(lambda: hn.hngarch_fit(x, **kw))
    if not np.array_equal(x, keep):
        return "fitting changed the series"
    m = o["model"]
    e = np.asarray(o["estimate"], float)
    if not near(e, [m[q] for q in ("lamb", "omega", "alpha", "beta", "gamma")]):
        return f"estimates {e!r} and model {m!r} differ"
    if m["rf"] != P["rf"] or (symmetric and m["gamma"] != 0):
        return f"model {m!r}"
    if not all(0 <= m[q] <= 1 for q in ("omega", "alpha", "beta")):
        return f"model outside (0, 1): {m!r}"
    per = m["beta"] + m["alpha"] * m["gamma"] ** 2
    if not abs(o["persistence"] - per) <= 1e-9 * (1 + per) or \
            not abs(o["sigma2"] - (m["omega"] + m["alpha"]) / (1 - per)) <= 1e-7 * abs(o["sigma2"]):
        return f"persistence {o['persistence']!r} sigma2 {o['sigma2']!r} for {m!r}"
    if not per < 1 or min(m["omega"], m["alpha"], m["beta"]) < 1e-9:
        raise Skip
    Q = {q: m[q] for q in ("lamb", "omega", "alpha", "beta", "gamma", "rf")}
    h, z, _ = variances(None, n, x=x, **Q)
    if not np.allclose(o["h"], h, rtol=1e-6) or not np.allclose(o["z"], z, rtol=1e-6, atol=1e-6):
        return "filtered series do not belong to the reported parameters"
    want = float(np.sum(.5 * math.log(2 * math.pi) + .5 * z * z + .5 * np.log(h)))
    if np.max(np.abs(z)) > 35 or np.isnan(o["minimum"]):
        raise Skip              # the density underflows; scipy's abnormal stop reports x of one step with the nan of a failed one
    if not abs(o["minimum"] + want - n * math.sqrt(2 * math.pi)) <= 1e-6 * (n + abs(want)):
        return f"reported likelihood {o['minimum']!r}, at the reported parameters {-want + n * math.sqrt(2 * math.pi)!r}"
    start = dict(lamb=P["lamb"], omega=kw.get("omega", float(np.var(x))), beta=P["beta"], gamma=0.0 if symmetric else kw.get("gamma", 0.0), rf=P["rf"])
    start["alpha"] = kw.get("alpha", .1 * start["omega"])
    if 1 - start["beta"] - start["alpha"] * start["gamma"] ** 2 > 0:
        h, z, _ = variances(None, n, x=x, **start)
        if np.max(np.abs(z)) > 35:
            return
        first = float(np.sum(.5 * math.log(2 * math.pi) + .5 * z * z + .5 * np.log(h)))
        if not abs(o["value"] - first) <= 1e-7 * (n + abs(first)):
            return f"initial value {o['value']!r}, expected {first!r}"
        if want > first + 1e-6 * (1 + abs(first)):
            return f"the fit is worse than its start: {want!r} > {first!r}"


def sample(g):
    while True:
        s = g.rng.randint(1, 10 ** 6)
        for _ in range(4):
            s += 1
            yield "simulation", dict(seed=s)
            yield "likelihood", dict(seed=s)
        yield "fit", dict(seed=s)
