"""Array inputs price element by element (bounded: sampled classes, array subsets and lengths)"""
from .classes import *


def pieces(v):
    if isinstance(v, dict):
        return [(f"[{q}]{p}", x) for q in v for p, x in pieces(v[q])]
    return [("", v)]


@check(limit=30)
def vec(cls, arrays, seed, m=3, shuffle=False, **a):
    g = Gen(seed)
    rows = [dict(a)] + [params(g, cls) for _ in range(m - 1)]
    if cls == "MiltersenSchwartzOption":
        for w in rows:
            w["T"] = a["t"] + .5 + g.u(0, .5) if "T" in arrays else a["T"]
            w["t"] = min(w["t"], .9 * w["T"])
        if "T" not in arrays:
            for w in rows:
                w["t"] = min(w["t"], .9 * a["T"])
    if shuffle:
        g.rng.shuffle(rows)
        a = rows[0]
    x = {q: (np.array([float(w[q]) for w in rows]) if q in arrays else rows[0][q]) for q in a}
    keep = {q: np.array(v) for q, v in x.items() if q in arrays}
    fd = cls in VECTOR[:3]
    elems = [{q: (float(v[i]) if q in arrays else v) for q, v in x.items()} for i in range(m)]
    o = build(cls, x)
    scale = max(float(np.max(np.abs(v))) for v in x.values())
    for name in ("call", "put", "delta", "gamma", "theta", "vega", "lamb", "rho", "c_of_c", "greeks"):
        if not hasattr(o, name):
            continue
        kws = [{}]
        if name in ("delta", "theta", "lamb", "rho", "c_of_c", "greeks"):
            kws.append({"call": False})
        if fd and name in ("delta", "gamma", "theta", "vega", "lamb") + (("rho",) if cls == "Black76Option" else ()):
            kws.append({"method": "fdm"})
        for kw in kws:
            want = []
            with np.errstate(all="ignore"):
                try:
                    want = [getattr(build(cls, e), name)(**kw) for e in elems]
                except Exception:
                    continue            # the scalar itself has no value
                got = getattr(o, name)(**kw)
            for (lab, v), *ws in zip(pieces(got), *map(pieces, want)):
                v, w = np.asarray(v), np.array([np.asarray(y[1]) for y in ws])
                if v.dtype == object or w.dtype == object:
                    return f"{cls}.{name}({kw}){lab} with arrays {arrays}: not a numeric array"
                if v.shape != w.shape:
                    return f"{cls}.{name}({kw}){lab} with arrays {arrays}: shape {v.shape}, elementwise {w.shape}"
                fdm = "fdm" in kw.values() or not fd
                nd_ = fdm and name not in ("call", "put") or name == "greeks"
                tol = (2e-4 if nd_ else 1e-9) * (1 + np.abs(w)) + (1e-5 * (1 + scale) if nd_ else 0)
                with np.errstate(all="ignore"):
                    bad = ~((np.abs(v - w) <= tol) | (v == w) | ((v != v) & (w != w)))
                if name == "lamb":          # a ratio: meaningless where the price vanishes
                    bad &= np.abs(w) < 1e6
                if bad.any():
                    return f"{cls}.{name}({kw}){lab} with arrays {arrays}: {v.tolist()} but one at a time {w.tolist()}"
            if len(pieces(got)) != len(pieces(want[0])):
                return f"{cls}.{name}({kw}) reports {list(got)}"
    for q in keep:
        if not np.array_equal(keep[q], x[q]):
            return f"{cls} changed the array passed as {q}"


def sample(g):
    while True:
        c = g.pick(*VECTOR)
        ks = order(c)
        arrs = [q for q in ks if g.chance(.4)] or [g.pick(*ks)]
        if g.chance(.2):
            arrs = list(ks)
        yield "vec", dict(params(g, c), cls=c, arrays=arrs, seed=g.rng.randrange(10**6), m=g.pick(2, 3, 4, 7), shuffle=g.chance(.5))
