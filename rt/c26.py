"""Missing volatility, unknown exercise types and unsupported arrays are rejected (bounded: sampled)"""
from .classes import *

SIGMA = ["GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"]
ASK = ["call", "put", "delta", "gamma", "theta", "vega", "rho", "lamb", "greeks", "c_of_c"]


def answers(o, m, kw):
    try:
        with np.errstate(all="ignore"):
            v = getattr(o, m)(**kw)
    except Exception:
        return None
    return (v,)


@check(limit=60)
def nosigma(cls, how="default", **a):
    b = {q: v for q, v in a.items() if q != "sigma"}
    if how == "None":
        b["sigma"] = None
    try:
        o = build(cls, b)
    except Exception as e:
        return f"{cls} cannot be built without a volatility: {e!r}"
    for m in ASK:
        if not hasattr(o, m):
            continue
        kws = [{}]
        if cls != "RollGeskeWhaleyOption" and m in ("delta", "theta", "rho", "lamb", "greeks", "c_of_c"):
            kws.append({"call": False})
        if cls in VECTOR and m in ("delta", "gamma", "theta", "vega", "lamb"):
            kws.append({"method": "fdm"})
        if m in ("call", "put") and "n" in a:
            kws.append({"tree": True})
        for kw in kws:
            v = answers(o, m, kw)
            if v is not None:
                return f"{cls} without a volatility: {m}({kw}) returned {v[0]!r}"


@check(limit=60)
def badtype(cls, m=None, tree=False, **a):
    key = "type" if "type" in a else "otype"
    o = build(cls, a)
    for q in ("call", "put", "delta", "greeks"):
        for kw in ({}, {"tree": True}) if q in ("call", "put") else ({},):
            v = answers(o, q, kw)
            if v is not None:
                return f"{cls} with {key} {a[key]!r}: {q}({kw}) returned {v[0]!r}"


@check(limit=60)
def noarrays(cls, arrays, m, seed=0, **a):
    g = Gen(seed)
    x = dict(a)
    for q in arrays:
        x[q] = np.array([float(params(g, cls)[q]) for _ in range(m)])
    if cls not in TWOS:
        try:
            build(cls, x)
        except (TypeError, ValueError):
            return
        return f"{cls} accepts arrays {arrays} of length {m}"
    for z in sides(cls):
        try:
            with np.errstate(all="ignore"):
                v = value(build(cls, x), z)
        except Exception:
            continue
        return f"{cls} with arrays {arrays} of length {m} returned {v!r}"


def sample(g):
    while True:
        k = g.pick("nosigma", "badtype", "noarrays", "noarrays")
        if k == "nosigma":
            c = g.pick(*SIGMA + TREES)
            yield k, dict(params(g, c), cls=c, how="None" if c in TREES else g.pick("None", "default"))
        elif k == "badtype":
            c = g.pick(*TREES + TWOS)
            a = params(g, c)
            a["type" if c in TREES else "otype"] = g.pick("bermudan", "European", "American", "AMERICAN", "", "euro", None, "asian", "americann", 0, 1)
            yield k, dict(a, cls=c)
        else:
            c = g.pick(*[q for q in NAMES if q not in VECTOR and q != "BionomialSpreadAllTypes"])
            ks = [q for q in order(c) if q not in ("n", "type", "otype", "K2", "option")]
            a = params(g, c)
            yield k, dict(a, cls=c, arrays=[q for q in ks if g.chance(.3)] or [g.pick(*ks)], m=g.pick(2, 3, 4, 6, a.get("n", 3) + 1), seed=g.rng.randrange(10**6))
