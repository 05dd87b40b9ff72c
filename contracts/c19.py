"""C19: read-only methods leave the option, its arrays, its class and its module as they were."""
import sys
from .classes import *
from .american import stub_gbs
from pyvc.arrays import SymArray

META = dict(trusted=["numpy elementwise arithmetic (array semantics of the engine)", "numdifftools.Derivative and scipy root finders only call the given function"],
            assumptions=["each method is run once from an arbitrary freshly built object; when no attribute, class attribute or module variable changes, any sequence of "
                         "such calls sees the same state, and the code is deterministic in it",
                         "greeks, volatility, summary and str are checked with call/put used through their contract (returns a value, changes nothing), itself proved on the real call/put here"])
stub_normals(fo)
M = X.var("m", "int", True)
VECN = ["GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"]
SKIP = {"set_param", "plot"}


def world(c):
    """class attributes and module variables the methods could write to"""
    out = {}
    for k in c.cls.__mro__:
        if k.__module__.startswith("finoptions"):
            for q, v in vars(k).items():
                if not q.startswith("__") and not callable(v) and not isinstance(v, (staticmethod, classmethod, property)):
                    out.update(state_of(v, f"{k.__name__}.{q}", set()))
    for q in sorted({k.__module__ for k in c.cls.__mro__ if k.__module__.startswith("finoptions")}):
        mod = sys.modules.get(q)
        for g, v in sorted(vars(mod).items()) if mod else ():
            if isinstance(v, (int, float, list, dict, set, Sym, SymArray)) and not g.startswith("__"):
                out.update(state_of(v, f"{q}.{g}", set()))
    return out


def calls(c):
    """(method, kwargs) of every public method"""
    fd = c.name in VECN[:3]
    out = []
    for m in sorted(x for x in dir(c.cls) if not x.startswith("_")):
        if m in SKIP or not callable(getattr(c.cls, m)):
            continue
        kws = [{}]
        if m in ("delta", "theta", "rho", "lamb", "greeks", "c_of_c"):
            kws = [dict(call=True), dict(call=False)] if c.put else [{}]
        if fd and m in ("delta", "theta", "rho", "lamb", "gamma", "vega") and not (m == "rho" and c.name != "Black76Option"):
            kws = kws + [dict(kw, method="fdm") for kw in kws]
        if m in ("call", "put") and (c.name not in VECN) and "n" in c.params:
            kws = kws + [dict(tree=True)]
        if m == "summary":
            kws = [dict(printer=False)]
        if m == "volatility":
            kws = [dict(price=Sym(X.var("price", "real", True)), verbose=v, **z) for z in ((dict(call=True), dict(call=False)) if c.put else ({},)) for v in (False, True)]
        out += [(m, kw) for kw in kws]
    return out + [("__str__", {}), ("__repr__", {})] + ([] if "volatility" in dir(c.cls) or "sigma" not in c.params or c.name.startswith("BSAm") else [
        ("_volatility", dict(price=Sym(X.var("price", "real", True)), call=True))])


PRICES = ("call", "put", "is_call_optimal")


def run_one(c, m, kw, change=None, arrays=()):
    a = {q: (Sym(v) if isinstance(v, X.E) else v) for q, v in c.args(**(change or {})).items()}
    for q in arrays:
        a[q] = SymArray.make((M,), lambda ix, q=q: X.app(q + "_", *ix))
    given = {q: state_of(v, q, set()) for q, v in a.items()}
    o = c.cls(**a)
    s0, w0 = state(o), world(c)
    attr = getattr(o, m)
    attr(**kw)
    out = same_state(s0, state(o)) + same_state(w0, world(c), "class and module unchanged")
    for q in a:
        out += same_state(given[q], state_of(a[q], q, set()), f"argument {q} unchanged")
    return out


def hyps(c, arrays=()):
    h = [X.lt(X.ONE, M)] + ([X.le(X.ONE, c.sym("n"))] if "n" in c.params else [])
    for q in c.params:
        if q.startswith("rho") and q not in arrays:
            h += [X.lt(C(-1), c.sym(q)), X.lt(c.sym(q), C(1))]
    return h


def stub_cbnd():
    """its own purity is task _CBND"""
    fo.base._Base._CBND = lambda self, a, b, rho: Sym(X.app("CBND", *[G.lift(x) for x in (a, b, rho)]))


def label(m, kw):
    return m + "(" + ", ".join(f"{q}={'x' if isinstance(v, Sym) else v}" for q, v in kw.items()) + ")"


def check(c, group):
    def go(k):
        case = lambda env, p: [["pure", rtcase(c, seed=1)], ["pure", rtcase(c, seed=2)]]
        if group == "rest":
            stub_price(c)
        elif c.path.startswith("basic_american"):
            stub_gbs()
            stub_cbnd()
        for m, kw in calls(c):
            if group != (m if m in ("call", "put") else "call" if m in PRICES else "rest"):
                continue
            def one(ns, what):
                k.verify(lambda: run_one(c, m, kw, {} if ns is None else {"n": ns}), lambda p: p.value, theory(), hyps=hyps(c), case=case, witness=False, reach=False,
                         defs=False, branch_ms=40, what=what, **(dict(templates=[shapes], budget=60) if two else {}))
            two = c.name.split("-")[0] in ("AllTypes", "Max", "Min", "Spread") and group != "rest"
            before = len(k.obls)
            one(None, f"{c.name}.{label(m, kw)}")
            if two and any(o["status"] in ("unknown", "unsupported") for o in k.obls[before:]) and not any(o["status"] == "refuted" for o in k.obls[before:]):
                # array loops the shape invariants do not fit: a bounded stand-in, counted as bounded
                del k.obls[before:]
                for ns in (1, 2, 3):
                    one(ns, f"[bounded n={ns}] {c.name}.{label(m, kw)}")
    return go


def check_nosigma(c):
    """an object built without a volatility stays without one"""
    def go(k):
        case = lambda env, p: [["pure", rtcase(c, seed=s, nosigma=True)] for s in (1, 2, 3)]
        stub_price(c)
        for m, kw in calls(c):
            if m in ("volatility", "_volatility", "get_params", "__repr__", "copy"):
                k.verify(lambda: run_one(c, m, kw, {"sigma": None}), lambda p: p.value, theory(), hyps=hyps(c), case=case, witness=False, reach=False, defs=False, branch_ms=40,
                         what=f"{c.name} without sigma.{label(m, kw)}")
    return go


def check_arrays(c, group):
    def go(k):
        case = lambda env, p: [["pure", rtcase(c, seed=s, arrays=list(c.params))] for s in (1, 2)]
        for m, kw in calls(c):
            if (m in PRICES) == (group == "price") and m != "_volatility":
                for arrays in [tuple(c.params), tuple(c.params[::2]), tuple(c.params[1::2])]:
                    k.verify(lambda: run_one(c, m, kw, {}, arrays), lambda p: p.value, theory(), hyps=hyps(c, arrays), case=case, witness=False, reach=False,
                             defs=False, branch_ms=40, what=f"{c.name}.{label(m, kw)} arrays {','.join(arrays)}")
    return go


for _c in ALL:
    for _g in ("call", "put", "rest"):
        task(f"{_c.name} {_g}")(check(_c, _g))
    if "sigma" in _c.params:
        task(f"{_c.name} without sigma")(check_nosigma(_c))
for _n in VECN:
    task(f"{_n} arrays")(check_arrays(BY[_n], "price"))
    task(f"{_n} arrays rest")(check_arrays(BY[_n], "rest"))


@task("_CBND")
def cbnd(k):
    real_cbnd = fo.base._Base._CBND
    stub_cbnd()         # the recursive calls, through the contract being proved

    def run():
        o = BY["RollGeskeWhaleyOption"].make()
        s0, w0 = state(o), world(BY["RollGeskeWhaleyOption"])
        real_cbnd(o, *syms(*real("x", "y", "rho")))
        return same_state(s0, state(o)) + same_state(w0, world(BY["RollGeskeWhaleyOption"]), "class and module unchanged")
    k.verify(run, lambda p: p.value, theory(), hyps=[X.lt(C(-1), X.var("rho")), X.lt(X.var("rho"), C(1))], witness=False, reach=False, defs=False, branch_ms=40, what="_CBND")
