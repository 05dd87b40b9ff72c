"""C17: finite-difference greeks against differences of freshly built objects"""
from .classes import *
import numdifftools as nd


def quotients(f, x, n):
    """central differences for a range of step sizes"""
    out = []
    for h in (1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 1e-4) if n == 1 else (1e-1, 3e-2, 1e-2, 3e-3):
        h = h * x
        out.append((f(x + h) - f(x - h)) / (2 * h) if n == 1 else (f(x + h) - 2 * f(x) + f(x - h)) / h ** 2)
    return out


def agree(got, f, x, n, sign, scale, **kw):
    got = float(got)
    near = []
    for k in ([kw] if kw else []) + [{}, dict(step=x / 10), dict(step=1 / 252)]:
        try:
            w = sign * float(nd.Derivative(f, n=n, **k)(x))
        except Exception:
            continue
        if abs(got - w) <= 1e-4 * abs(w) + 1e-6 * scale:
            return None
        near.append(w)
    q = [sign * v for v in quotients(f, x, n)]
    lo, hi = min(q), max(q)
    w = hi - lo
    if lo - .2 * w - 1e-5 * scale <= got <= hi + .2 * w + 1e-5 * scale:
        return None
    return f"{got!r}, difference quotients between {lo!r} and {hi!r}"


@check
def fdm(cls, z, **a):
    fd = cls in ("GBSOption", "BlackScholesOption", "Black76Option")
    o = build(cls, a)
    before = snapshot(o)
    spots = [q for q in ("S1", "S2") if q in a] or [q for q in ("S", "FT") if q in a]
    vols = [q for q in ("sigma", "sigma1", "sigma2", "sigmaS", "sigmaE", "sigmaF") if q in a]
    kw = dict(method="fdm") if fd else {}
    ck = dict(kw) if cls == "RollGeskeWhaleyOption" else dict(kw, call=z == 1)

    def f(q, zz):
        return lambda x: float(value(build(cls, dict(a, **{q: float(x)})), zz))
    p0 = float(value(o, z))
    size = sum(abs(a[q]) for q in spots) + a["K"]
    if not math.isfinite(p0) or p0 < 1e-3 * size:
        raise Skip
    pairs = []
    d, ga, th, ve, la = o.delta(**ck), o.gamma(**kw), o.theta(**ck), o.vega(**kw), o.lamb(**ck)
    rho = o.rho(**ck) if "r" in a and not (fd and cls != "Black76Option" and a["b"] != 0) else None
    if not fd:
        gr = o.greeks() if cls == "RollGeskeWhaleyOption" else o.greeks(z == 1)
        for q, v in dict(delta=d, gamma=ga, theta=th, vega=ve, rho=rho, **{"lambda": la}).items():
            if q in gr and not same(gr[q], v, 1e-9, 1e-12):
                return f"greeks()[{q!r}] = {gr[q]!r} but {q} is {v!r}"
            if q not in gr and v is not None:
                return f"greeks() lacks {q}"

    def part(v, q, i, many):
        return v if not many else v[q] if isinstance(v, dict) else v[i]
    for i, q in enumerate(spots):
        dq = part(d, q, i, len(spots) > 1)
        pairs.append((f"delta {q}", dq, f(q, z), a[q], 1, 1, {}, p0 / a[q] + 1))
        pairs.append((f"gamma {q}", part(ga, q, i, len(spots) > 1), f(q, 1), a[q], 2, 1, {}, (p0 / a[q] + 1) / a[q]))
        lq = float(part(la, q, i, len(spots) > 1))
        if not abs(lq - float(dq) * a[q] / p0) <= 1e-8 * (1 + abs(lq)):
            return f"lambda {q} = {lq!r}, delta * spot / price = {float(dq) * a[q] / p0!r}"
    for i, q in enumerate(vols):
        pairs.append((f"vega {q}", part(ve, q, i, len(vols) > 1), f(q, 1), a[q], 1, 1, {}, size))
    pairs.append(("theta", th, f("t", z), a["t"], 1, -1, dict(step=1 / 252), size))
    if rho is not None and a["r"] > .02:
        def fr(x):
            return float(value(build(cls, dict(a, r=float(x))), z))
        pairs.append(("rho", rho, fr, a["r"], 1, 1, {}, size))
    for nm, got, fn, x, n, sg, k, sc in pairs:
        m = agree(got, fn, x, n, sg, sc, **k)
        if m:
            return f"{nm} of the {'call' if z == 1 else 'put'}: {m}"
    if not same(before, snapshot(o)):
        return "the greeks changed the object"


def sample(g):
    name = g.pick(*NAMES)
    a = params(g, name)
    if name in ("GBSOption", "BlackScholesOption") and g.chance(.4):
        a["b"] = 0.0
    yield "fdm", dict(a, cls=name, z=g.pick(*sides(name)))
