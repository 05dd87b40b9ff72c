"""summary, str and repr on sampled objects of every class (bounded)"""
import contextlib
import io
from .classes import *

TITLE = {"GBSOption": "Black Scholes Option", "BlackScholesOption": "Black Scholes Option", "Black76Option": "Black 1977 Option",
         "MiltersenSchwartzOption": "Miltersen Schwartz Option", "RollGeskeWhaleyOption": "Roll-Geske-Whaley Calls on Dividend Paying Stocks",
         "BAWAmericanApproxOption": "Barone-Adesi and Whaley Approximation",
         "BSAmericanApproxOption": "The Bjerksund and Stensland (1993) American Approximation Option",
         "SpreadApproxOption": "Spread-Option Approximation Model", "CRRBinomialTreeOption": "CRR Binomial Tree Model",
         "JRBinomialTreeOption": "JR Binomial Tree Model", "TIANBinomialTreeOption": "TIAN Binomial Tree Model", "TrinomialTreeOption": "Trinomial Tree Model",
         "BionomialSpreadAllTypes": "Rubinstein Binomial Tree Spread Option Model", "BionomialMaxOption": "Binomial Tree Maximum Spread Option Model",
         "BionomialMinOption": "Binomial Tree Minimum Spread Option Model", "BionomialSpreadOption": "Binomial Tree Spread Option Model"}


def shown(x):
    return np.array2string(x.round(2), threshold=6) if isinstance(x, np.ndarray) and x.shape[0] > 6 else str(x)


@check(limit=60)
def report(cls, arrays=(), seed=0, nosig=False, m=3, **a):
    g = Gen(seed)
    x = dict(a)
    if arrays:
        rows = [dict(a)] + [params(g, cls) for _ in range(m - 1)]
        x.update({q: np.array([float(w[q]) for w in rows]) for q in arrays})
        if cls == "MiltersenSchwartzOption":
            x["T"] = x["t"] + 1.0
    if nosig:
        x["sigma"] = None
    o = build(cls, x)
    with np.errstate(all="ignore"):
        text, twice = str(o), o.summary(printer=False)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            o.summary()
    if text != twice or buf.getvalue().strip() != text.strip():
        return f"{cls}: str(), summary() and the printed summary differ: {text!r} {twice!r} {buf.getvalue()!r}"
    body, _, tail = text.partition("Option Price")
    title = body.splitlines()[0]
    if TITLE[cls] not in title or any(v in title for v in TITLE.values() if v not in TITLE[cls] and v != TITLE[cls] and TITLE[cls] not in v):
        return f"{cls}: title {title!r}"
    vals = dict(x)
    if cls == "Black76Option":
        vals["b"] = 0
    for q, v in vals.items():
        if f"\n  {q} = {shown(v)}\n" not in body + "\n":
            return f"{cls}: no line {q} = {shown(v)!r} in {body!r}"
    if list(o.get_params()) != [l.split(" = ")[0].strip() for l in body.splitlines() if " = " in l]:
        return f"{cls}: the parameters listed are not {list(o.get_params())}: {body!r}"
    ty = a.get("type", a.get("otype"))
    for z in sides(cls):
        name = ("call" if z == 1 else "put") + (f"-{ty}" if ty else "")
        line = [l.strip() for l in tail.splitlines() if l.strip().startswith(name + ":")]
        with np.errstate(all="ignore"):
            try:
                v = o.call() if z == 1 else o.put()
            except Exception:
                v = None
        if v is None:
            if line:
                return f"{cls}: price line {line} although there is no price"
            continue
        if isinstance(v, dict):
            want = f"{name}: {round(v['OptionPrice'], 6)}, trigger: {round(v['TriggerPrice'], 6)}"
        elif isinstance(v, np.ndarray):
            want = f"{name}: {shown(v.round(2))}"
        else:
            want = f"{name}: {round(v, 6)}"
        if want not in tail or len(line) != 1:
            return f"{cls}: expected {want!r} in {tail!r}"
    if cls == "RollGeskeWhaleyOption" and not text.strip().endswith(f"Optimal to Exercise Call Option: {o.is_call_optimal()}"):
        return f"{cls}: advice in {text!r} but is_call_optimal() is {o.is_call_optimal()}"
    rep = repr(o)
    want = f"{cls}(" + ", ".join(shown(v) for v in o.get_params().values()) + ")"
    if "".join(rep.split()).replace("'", "") != "".join(want.split()).replace("'", ""):
        return f"{cls}: repr {rep!r}, expected {want!r}"
    if not arrays and not nosig and not ty and cls != "Black76Option":
        p = build(cls, dict(zip(o.get_params(), eval(rep[len(cls):], {"nan": float("nan")}))))
        if not same(p.get_params(), o.get_params()):
            return f"{cls}: repr {rep!r} rebuilds {p.get_params()}"


def sample(g):
    while True:
        c = g.pick(*NAMES)
        a = params(g, c)
        arrs = [q for q in order(c) if g.chance(.4)] if c in VECTOR and g.chance(.5) else []
        nos = "sigma" in a and not arrs and g.chance(.15)
        yield "report", dict(a, cls=c, arrays=arrs, seed=g.rng.randrange(10**6), nosig=nos, m=g.pick(2, 3, 6, 7, 9))
