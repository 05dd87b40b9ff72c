"""Read-only calls change nothing, in any order (bounded: sampled classes, parameters and call sequences)"""
import contextlib
import io
import sys
import warnings
from .classes import *

READ = ["call", "put", "delta", "gamma", "theta", "vega", "rho", "lamb", "greeks", "c_of_c", "is_call_optimal", "get_params", "copy",
        "summary", "__str__", "__repr__", "volatility", "_volatility"]


def freeze(v, depth=0):
    if isinstance(v, np.ndarray):
        return ("array", v.shape, str(v.dtype), v.tobytes() if v.dtype != object else repr(v))
    if isinstance(v, (int, float, complex, str, bool, type(None), np.generic)):
        return ("value", type(v).__name__, repr(v))
    if isinstance(v, dict):
        return ("dict", tuple((str(q), freeze(x, depth + 1)) for q, x in v.items()))
    if isinstance(v, (list, tuple, set)):
        return (type(v).__name__, tuple(freeze(x, depth + 1) for x in v))
    if depth < 3 and type(v).__module__.startswith("finoptions") and hasattr(v, "__dict__"):
        return (type(v).__name__, tuple((q, freeze(x, depth + 1)) for q, x in sorted(vars(v).items()) if q != "_opt"))
    return type(v).__name__


def world(cls):
    out = [(q, freeze(v)) for k in cls.__mro__ if k.__module__.startswith("finoptions") for q, v in sorted(vars(k).items())
           if not q.startswith("__") and not callable(v)]
    for n, m in sorted(sys.modules.items()):
        if n.startswith("finoptions") and m:
            out += [(n, q, freeze(v)) for q, v in sorted(vars(m).items()) if isinstance(v, (int, float, list, dict, set, np.ndarray)) and not q.startswith("__")]
    return out


def ask(o, m, kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            v = getattr(o, m)(**kw)
        except Exception as e:
            return "raised " + type(e).__name__
    if m == "copy":
        return freeze(dict(v.get_params()))
    return v if not hasattr(v, "__dict__") or isinstance(v, (np.ndarray, np.generic)) else freeze(dict(v) if isinstance(v, dict) else str(type(v)))


@check(limit=60)
def pure(cls, seed, arrays=(), steps=10, nosigma=False, **a):
    g = Gen(seed)
    x = dict(a)
    if arrays:
        rows = [dict(a)] + [params(g, cls) for _ in range(2)]
        x.update({q: np.array([float(w[q]) for w in rows]) for q in arrays})
        if cls == "MiltersenSchwartzOption":
            x["T"] = x["t"] + 1.0
    o = priced = build(cls, x)
    if nosigma:
        x["sigma"] = None
        o = build(cls, x)
    fd = cls in VECTOR[:3]
    ops = []
    for m in READ:
        if not hasattr(o, m) or (m == "_volatility" and (hasattr(o, "volatility") or "sigma" not in a or cls in TREES[3:] or cls.startswith("BSA"))):
            continue
        kws = [{}]
        if cls != "RollGeskeWhaleyOption" and m in ("delta", "theta", "rho", "lamb", "greeks", "c_of_c"):
            kws.append({"call": False})
        if fd and m in ("delta", "gamma", "theta", "vega", "lamb"):
            kws.append({"method": "fdm"})
        if m in ("call", "put") and ("n" in a):
            kws.append({"tree": True})
        if m == "summary":
            kws = [{"printer": True}, {"printer": False}]
        if m in ("volatility", "_volatility"):
            if arrays:
                continue
            with np.errstate(all="ignore"):
                v = value(priced, 1)
            kws = [{"price": float(v)}, {"price": float(v) * .9, "verbose": True}] if np.ndim(v) == 0 else []
        ops += [(m, kw) for kw in kws]
    heavy = ("greeks", "volatility", "_volatility")
    seq = [ops[g.rng.randrange(len(ops))] for _ in range(steps)]
    if "n" in a or cls in ("RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"):
        seq = [q for i, q in enumerate(seq) if q[0] not in heavy or i < 2]
    before, w0 = freeze(o), world(type(o))
    given = {q: np.array(v) for q, v in x.items() if isinstance(v, np.ndarray)}
    first_answers = {}
    for i, (m, kw) in enumerate(seq):
        v = ask(o, m, kw)
        if freeze(o) != before:
            return f"{cls}.{m}({kw}) changed the object" + diff(before, freeze(o))
        if world(type(o)) != w0:
            return f"{cls}.{m}({kw}) changed a class attribute or module variable"
        for q in given:
            if not np.array_equal(given[q], x[q], equal_nan=True):
                return f"{cls}.{m}({kw}) changed the array passed as {q}"
        key = m + repr(kw)
        fresh = ask(build(cls, x), m, kw) if key not in first_answers else first_answers[key]
        if not same(v, fresh):
            return f"{cls}.{m}({kw}) after {[s[0] for s in seq[:i]]}: {v} but asked first {fresh}"
        first_answers[key] = fresh


def diff(x, y):
    try:
        return ": " + ", ".join(f"{p[0]}" for p, q in zip(x[1], y[1]) if p != q)
    except Exception:
        return ""


def sample(g):
    while True:
        c = g.pick(*NAMES)
        a = params(g, c)
        arrs = ()
        if c in VECTOR and g.chance(.4):
            arrs = [q for q in order(c) if g.chance(.5)]
        if "sigma" in a and not arrs and g.chance(.15):
            yield "pure", dict(a, cls=c, seed=g.rng.randrange(10**6), steps=8, nosigma=True)
        yield "pure", dict(a, cls=c, seed=g.rng.randrange(10**6), arrays=arrs, steps=g.pick(4, 8, 12))
