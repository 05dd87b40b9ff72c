"""The option classes of the library: constructor parameters, greeks, and the price cut point used by C17-C21, C26, C27."""
from .common import *

FLOATS = dict(S="pos", K="pos", t="pos", r="real", b="real", sigma="pos", td="pos", D="pos", FT="pos", T="pos", Pt="pos",
              S1="pos", S2="pos", b1="real", b2="real", sigma1="pos", sigma2="pos", rho="real", K2="pos", Q1="pos", Q2="pos",
              sigmaS="pos", sigmaE="pos", sigmaF="pos", rhoSE="real", rhoSF="real", rhoEF="real", KappaE="pos", KappaF="pos")
STD = ["S", "K", "t", "r", "b", "sigma"]
TWO = ["S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "Q1", "Q2"]
MS = ["Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF"]


class Cls:
    def __init__(self, name, path, params, fixed=(), spot="S", read=None, put=True, hidden=()):
        self.name, self.path, self.params, self.fixed, self.spot, self.put = name, path, params, dict(fixed), spot, put
        self.hidden = dict(hidden)      # parameters the class reports although its constructor does not take them

    @property
    def cls(self):
        o = fo
        for q in self.path.split("."):
            o = getattr(o, q)
        return o

    def sym(self, q):
        return X.var("n", "int", True) if q == "n" else X.var(q, "real", FLOATS[q] == "pos")

    def args(self, **change):
        a = {q: self.sym(q) for q in self.params}
        a.update(self.fixed)
        a.update(change)
        return a

    def make(self, **change):
        return self.cls(**{q: (Sym(v) if isinstance(v, X.E) else v) for q, v in self.args(**change).items()})


def classes():
    B, A, P = "binomial_tree_options.", "basic_american_options.", "spread_options."
    out = [Cls("GBSOption", "GBSOption", STD), Cls("BlackScholesOption", "BlackScholesOption", STD),
           Cls("Black76Option", "Black76Option", ["FT", "K", "t", "r", "sigma"], spot="FT", hidden={"b": 0}),
           Cls("MiltersenSchwartzOption", "MiltersenSchwartzOption", MS, spot="FT"),
           Cls("RollGeskeWhaleyOption", A + "RollGeskeWhaleyOption", ["S", "K", "t", "td", "r", "D", "sigma"], put=False),
           Cls("BAWAmericanApproxOption", A + "BAWAmericanApproxOption", STD),
           Cls("BSAmericanApproxOption", A + "BSAmericanApproxOption", STD),
           Cls("SpreadApproxOption", P + "SpreadApproxOption", TWO, spot=None)]
    for m in ("CRR", "JR", "TIAN"):
        for ty in ("european", "american"):
            out.append(Cls(f"{m}-{ty}", B + m + "BinomialTreeOption", STD + ["n"], dict(type=ty)))
    for ty in ("european", "american"):
        out.append(Cls("Trinomial-" + ty, B + "TrinomialTreeOption", STD + ["n"], dict(type=ty)))
    for ty in ("european", "american"):
        out.append(Cls("AllTypes-" + ty, P + "BionomialSpreadAllTypes", TWO + ["K2", "n"], dict(otype=ty, option=5), spot=None))
        for m in ("Max", "Min", "Spread"):
            out.append(Cls(f"{m}-{ty}", P + f"Bionomial{m}Option", TWO + ["n"], dict(otype=ty), spot=None))
    return out


ALL = classes()
BY = {c.name: c for c in ALL}


def price(c, z, a):
    """the cut point: c's price of type z at the parameters a (a mapping)"""
    text = [f"{q}={a[q]}" for q in sorted(a) if isinstance(a[q], str) or a[q] is None or (q == "option")]
    nums = [G.lift(a[q]) for q in sorted(a) if not (isinstance(a[q], str) or a[q] is None or q == "option")]
    return X.app(f"price.{c.cls.__name__}.{'call' if z == 1 else 'put'}({', '.join(text)})", *nums)


def stub_price(c):
    """from here on call/put are used through their contracts: a function of the object's parameters"""
    for m, z in (("call", 1), ("put", -1)):
        if getattr(c.cls, m, None) is None:
            continue

        def stub(self, *a, _z=z, **kw):
            p = dict(self.get_params())
            e = price(c, _z, p)
            if c.name == "BSAmericanApproxOption":
                return {"OptionPrice": Sym(e), "TriggerPrice": Sym(X.app("trigger" + str(_z), e))}
            return Sym(e)
        setattr(c.cls, m, stub)


DEF = dict(S=100.0, K=95.0, t=.7, r=.07, b=.03, sigma=.3, FT=100.0, T=1.1, Pt=.95, td=.3, D=4.0, S1=110.0, S2=100.0, b1=.03, b2=-.02,
           sigma1=.3, sigma2=.2, rho=.4, K2=90.0, Q1=1.0, Q2=1.5, sigmaS=.3, sigmaE=.25, sigmaF=.02, rhoSE=.6, rhoSF=.1, rhoEF=.1,
           KappaE=1.0, KappaF=.3, n=4)


def rtcase(c, env=None, **more):
    """the class at concrete parameters, for the runtime side"""
    a = {q: (env or {}).get(q, DEF[q]) for q in c.params}
    if c.spot is None and "Spread" in c.cls.__name__ and c.cls.__name__ != "BionomialSpreadAllTypes" and not env:
        a["K"] = 8.0
    a.update(c.fixed)
    a.update(more)
    return dict(a, cls=c.cls.__name__)


# ------------------------------------------------------------------ object state
def state(o, seen=None, pre=""):
    """every attribute the object carries, recursively, as comparable values"""
    seen = seen or set()
    out = {}
    for q, v in sorted(vars(o).items()):
        out.update(state_of(v, pre + q, seen | {id(o)}))
    return out


def state_of(v, name, seen):
    from pyvc.arrays import SymArray
    if isinstance(v, SymArray):
        return {name: v.copy()}
    if v is None or isinstance(v, (Sym, SymBool, int, float, complex, str, bool, type)):
        return {name: v}
    if isinstance(v, (list, tuple)):
        out = {name + "#": type(v).__name__ + str(len(v))}
        for i, x in enumerate(v):
            out.update(state_of(x, f"{name}[{i}]", seen))
        return out
    if isinstance(v, dict):
        out = {name + "#": "dict " + " ".join(map(str, v))}
        for q, x in v.items():
            out.update(state_of(x, f"{name}[{q!r}]", seen))
        return out
    if id(v) in seen:
        return {name: "<cycle>"}
    if hasattr(v, "__func__"):
        own = "its own" if id(v.__self__) in seen else "another object's"
        return {name: f"<{own} method {v.__func__.__name__}>"}
    if callable(v) and not hasattr(v, "__dict__"):
        return {name: "<builtin " + getattr(v, "__name__", "?") + ">"}
    if hasattr(v, "__dict__"):
        out = {name + "#": type(v).__name__}
        if callable(v) and hasattr(v, "__code__"):
            return {name: "<function " + v.__name__ + ">"}
        out.update(state(v, seen, name + "."))
        return out
    return {name: repr(type(v))}


def same_value(x, y):
    from pyvc.arrays import SymArray
    if isinstance(x, SymArray) or isinstance(y, SymArray):
        if not (isinstance(x, SymArray) and isinstance(y, SymArray)) or len(x.shp) != len(y.shp):
            return X.FALSE
        ix = [X.var(f"ix{i}", "int") for i in range(len(x.shp))]
        inside = X.and_(*[X.and_(X.le(X.ZERO, i), X.lt(i, s)) for i, s in zip(ix, x.shp)])
        return X.and_(*[X.eq(a, b) for a, b in zip(x.shp, y.shp)], X.or_(X.not_(inside), X.eq(x.get(*ix), y.get(*ix))))
    num = (Sym, SymBool, int, float, complex)
    if isinstance(x, num) and isinstance(y, num) and not isinstance(x, bool) and not isinstance(y, bool):
        return X.eq(G.lift(x), G.lift(y))
    return X.TRUE if x == y else X.FALSE


def same_state(before, after, what="object unchanged"):
    out = []
    if list(before) != list(after):
        diff = sorted(set(before) ^ set(after))[:6]
        return [(f"{what}: attributes {diff} appear or disappear", X.FALSE)]
    for q in before:
        g = same_value(before[q], after[q])
        if g is X.TRUE:
            continue
        out.append((f"{what}: {q}", g))
    return out or [(what, X.TRUE)]


def shapes(kind, ent, N_, en):
    """loop invariant: an array keeps its shape, or shrinks by one row and column per turn (its values do not matter to purity)"""
    if kind == "array" and N_ is not None:
        for shape in (lambda c: ent.shp, lambda c: tuple(X.sub(s, c) for s in ent.shp)):
            yield ArrayCand(shape, lambda c, ix: X.FALSE, lambda c, ix: X.ZERO, "shape")
