"""C26: a missing volatility, an unknown exercise type and unsupported arrays are rejected."""
import itertools
from .classes import *
from .american import stub_gbs
from pyvc.arrays import SymArray

META = dict(trusted=["numpy refuses to store an array in an array element"],
            assumptions=["an unknown exercise type is any value equal to neither 'european' nor 'american'",
                         "arrays are one-dimensional with at least two elements (the code documents one-element arrays as scalars)"])
stub_normals(fo)
M = X.var("m", "int", True)
STEPS = [X.le(X.ONE, X.var("n", "int", True))]
NOSIG = ["GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption",
         "CRR-european", "CRR-american", "JR-european", "JR-american", "TIAN-european", "TIAN-american", "Trinomial-european", "Trinomial-american"]


class Other(str):
    """an exercise type different from every text it is compared with"""
    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self
    __hash__ = str.__hash__


def cbnd_stub():
    fo.base._Base._CBND = lambda self, a, b, rho: Sym(X.app("CBND", *[G.lift(x) for x in (a, b, rho)]))


def needs(c):
    fd = c.name in NOSIG[:3]
    out = [("call", {})] + ([("put", {})] if c.put else [])
    for m in ("delta", "theta", "rho", "lamb", "greeks", "c_of_c"):
        if hasattr(c.cls, m):
            out += [(m, dict(call=True)), (m, dict(call=False))] if c.put else [(m, {})]
    out += [("vega", {}), ("gamma", {})]
    if fd:
        out += [(m, dict(kw, method="fdm")) for m, kw in out if m in ("delta", "theta", "lamb", "vega", "gamma")]
    if "n" in c.params:
        out += [("call", dict(tree=True)), ("put", dict(tree=True))]
    return out


def refuses(p):
    return X.TRUE if isinstance(p.value, (ValueError, TypeError, AttributeError, UnboundLocalError, NotImplementedError)) else X.FALSE


def missing(c):
    def go(k):
        cbnd_stub()
        if c.name.startswith("Trinomial") or "n" in c.params:
            pass
        for how in ("default", "None"):
            a = {q: (Sym(v) if isinstance(v, X.E) else v) for q, v in c.args().items() if q != "sigma"}
            if how == "None":
                a["sigma"] = None
            elif "n" in c.params:
                continue            # the trees have no default volatility
            what = f"{c.name} sigma {how}"
            k.verify(lambda: c.cls(**a), lambda p: [("constructed without a volatility", X.TRUE)], theory(), witness=False, reach=False, defs=False,
                     case=lambda env, p: [["nosigma", rtcase(c, how=how)]], what=what)
            for m, kw in needs(c):
                def run():
                    o = c.cls(**a)
                    m_ = getattr(o, m)
                    return m_(**kw)
                k.verify(run, lambda p: [("an error is raised", X.FALSE)], theory(), raises=refuses, witness=False, reach=False, defs=False, branch_ms=40,
                         case=lambda env, p: [["nosigma", rtcase(c, how=how)]], what=f"{what}: {m}({kw or ''})")
    return go


def unknown(c):
    key = "type" if "type" in c.fixed else "otype"

    def go(k):
        for bad in (Other("bermudan"), "European", "", None):
            for m, kw in [("call", {}), ("put", {}), ("call", dict(tree=True)), ("put", dict(tree=True)), ("delta", {}), ("greeks", {})]:
                k.verify(lambda: getattr(c.make(**{key: bad}), m)(**kw), lambda p: [("an unknown exercise type is rejected", X.FALSE)], theory(), hyps=STEPS, templates=[shapes],
                         raises=refuses, witness=False, reach=False, defs=False, branch_ms=40,
                         case=lambda env, p: [["badtype", rtcase(c, **{key: q, "m": m, "tree": bool(kw)})] for q in ("bermudan", "European", "", "euro")],
                         what=f"{c.name} {key}={bad!r}: {m}({kw or ''})")
    return go


def arrays(c):
    two = c.spot is None
    used = [q for q in c.params if q != "n"]

    def go(k):
        if not two:
            stub_gbs()
            cbnd_stub()
        subs = [(q,) for q in used] + list(itertools.combinations(used, 2)) * (not two) + [tuple(used)]
        for s in subs:
            for m in ("call", "put") if c.put else ("call",):
                def run():
                    a = {q: (Sym(v) if isinstance(v, X.E) else v) for q, v in c.args().items()}
                    for q in s:
                        a[q] = SymArray.make((M,), lambda ix, q=q: X.app(q + "_", *ix))
                    o = c.cls(**a)
                    return getattr(o, m)() if two else o
                if not two and m != "call":
                    continue            # construction itself must refuse
                k.verify(run, lambda p: [("arrays are rejected", X.FALSE)], theory(), hyps=[X.lt(X.ONE, M)] + STEPS, templates=[shapes], raises=refuses, witness=False, reach=False,
                         defs=False, branch_ms=40, case=lambda env, p: [["noarrays", rtcase(c, arrays=list(s), m=j)] for j in (2, 3, 5)],
                         what=f"{c.name} arrays {','.join(s)}: {m if two else 'construction'}")
    return go


for _n in NOSIG:
    task(f"{_n} without sigma")(missing(BY[_n]))
for _c in ALL:
    if "type" in _c.fixed or "otype" in _c.fixed:
        if _c.name.endswith("european"):
            task(f"{_c.name} unknown type")(unknown(_c))
    if _c.name not in ("GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"):
        task(f"{_c.name} arrays")(arrays(_c))
