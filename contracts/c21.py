"""C21: the implied volatility of a price reproduces that price."""
import warnings
from .classes import *
from pyvc.arrays import SymArray

warnings.simplefilter("ignore")
META = dict(trusted=["scipy.optimize.root_scalar(f, bracket) returns a zero of f in the bracket when f changes sign over it",
                     "scipy.optimize.root returns an array at which f is zero", "call/put through their contracts (C03, C14, C20)",
                     "the price increases with a positive volatility, and at a negative one is minus the price of the opposite type (C04, C03; for Roll-Geske-Whaley not proved)"],
            assumptions=["the price is one the option produces at a volatility in [0.001, 5]"],
            bounded=["convergence of scipy's solvers: sampled round trips"])
stub_normals(fo)
M = X.var("m", "int", True)
I = X.var("i", "int")
PRICE = X.var("price", "real", True)
VOLS = ["GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption"]
SIG0 = X.var("sigma0", "real", True)


def number(v):
    return getattr(v, "root", getattr(v, "x", v)) if not isinstance(v, (Sym, SymArray)) else v


def ask(c, z, price, verbose, o):
    kw = dict(verbose=True) if verbose else {}
    return o.volatility(price, **kw) if not c.put else o.volatility(price, call=z == 1, **kw)


def price_of(o, z):
    return o.call() if z == 1 else o.put()


def case(c, z):
    return lambda env, p: [["roundtrip", dict(rtcase(c), z=z)], ["roundtrip", dict(rtcase(c, sigma=.05), z=z)], ["roundtrip", dict(rtcase(c, sigma=1.2), z=z)],
                           ["roundtrip", dict(rtcase(c), z=z, arrays=["S" if "S" in c.params else "FT"])], ["roundtrip", dict(rtcase(c), z=z, arrays=["price"])]]


def scalar(c, z):
    def go(k):
        if c.name.startswith("Roll"):
            stub_price(c)
        for known in (True, False):
            for verbose in (False, True):
                def run():
                    if known:
                        o = c.make()
                    else:
                        o = c.cls(**{q: (Sym(v) if isinstance(v, X.E) else v) for q, v in c.args().items() if q != "sigma"})
                    s0 = state(o)
                    sol = number(ask(c, z, Sym(PRICE), verbose, o))
                    s1 = state(o)
                    if not isinstance(sol, Sym):
                        raise Failed("a number is expected")
                    x, zero = G.ENG.rootinfo
                    again = ev(price_of(c.make(sigma=ev(sol)), z))
                    return ([("the root reproduces the price", X.or_(X.not_(X.eq(zero, X.ZERO)), eq(again, PRICE))),
                             ("the result is not always positive only if the root is not", X.or_(X.le(x, X.ZERO), X.lt(X.ZERO, ev(sol))))]
                            + same_state(s0, s1, "the option is unchanged"))
                k.verify(run, lambda p: p.value, theory(), case=case(c, z), witness=False, reach=False, defs=False, branch_ms=60,
                         what=f"{c.name} {'call' if z == 1 else 'put'} sigma {'given' if known else 'None'}" + (" verbose" if verbose else ""))
    return go


def bracket(c, z):
    def go(k):
        stub_price(c)

        def P(s):
            return price(c, z, dict(c.args(sigma=s), **c.hidden))

        def run():
            o = c.make()
            ask(c, z, Sym(P(SIG0)), False, o)
            en = G.ENG
            out = []
            for e in en.path.events:
                if e[0] != "root_scalar":
                    continue
                _, f, args, br, kw, x = e
                out.append(("a bracket is given", X.TRUE if br is not None else X.FALSE))
                tol = kw.get("xtol")
                out.append(("tolerance", X.TRUE if tol is None or isinstance(tol, (int, float)) and tol <= 1e-7 else X.FALSE))
                its = kw.get("maxiter")
                out.append(("iterations", X.TRUE if its is None or its >= 100 else X.FALSE))
                if br is None:
                    continue
                lo, hi = [G.lift(q) for q in br]
                flo, fhi = [ev(f(Sym(q), *args)) for q in (lo, hi)]
                mono = []
                for q in (lo, hi):
                    at = P(q)
                    neg_ = X.le(at, X.ZERO)
                    up = X.or_(X.lt(q, SIG0), X.le(P(SIG0), at))
                    dn = X.or_(X.lt(SIG0, q), X.le(at, P(SIG0)))
                    mono.append(X.or_(X.and_(X.lt(q, X.ZERO), X.not_(neg_)), X.and_(X.lt(X.ZERO, q), X.not_(X.and_(up, dn)))))
                ok = X.or_(X.and_(X.le(X.ZERO, flo), X.le(fhi, X.ZERO)), X.and_(X.le(X.ZERO, fhi), X.le(flo, X.ZERO)))
                out.append(("the function changes sign over the bracket", X.or_(*mono, X.lt(P(SIG0), X.ZERO), ok)))
                out.append(("the bracket starts below any admitted volatility", X.le(lo, C(0.001))))
                out.append(("the bracket ends above any admitted volatility", X.le(C(5), hi)))
            return out or [("a scalar root finder is used", X.FALSE)]
        k.verify(run, lambda p: p.value, theory(), hyps=[X.le(C(0.001), SIG0), X.le(SIG0, C(5))], case=case(c, z), witness=False, reach=False, defs=False,
                 what=f"{c.name} {'call' if z == 1 else 'put'} bracket")
    return go


def arrays(c, z):
    def go(k):
        others = [q for q in c.params if q != "sigma"]
        subs = [("price",)] + [(q,) for q in others] + [("price", q) for q in others] + [tuple(others), ("price",) + tuple(others)]
        for sub_ in subs:
            H = [X.le(X.ZERO, I), X.lt(I, M), X.lt(X.ONE, M)]
            for verbose in (False, True):
                def run():
                    a = {q: (Sym(v) if isinstance(v, X.E) else v) for q, v in c.args().items()}
                    el = dict(a)
                    for q in sub_:
                        if q != "price":
                            a[q] = SymArray.make((M,), lambda ix, q=q: X.app(q + "_", *ix))
                            el[q] = Sym(X.app(q + "_", I))
                    pr, pe = Sym(PRICE), PRICE
                    if "price" in sub_:
                        pr, pe = SymArray.make((M,), lambda ix: X.app("price_", *ix)), X.app("price_", I)
                    o = c.cls(**a)
                    s0 = state(o)
                    sol = number(ask(c, z, pr, verbose, o))
                    s1 = state(o)
                    if not isinstance(sol, SymArray) or len(sol.shp) != 1:
                        return [("one volatility per element", X.FALSE)]
                    x, v = G.ENG.rootinfo
                    zero = v.get(I) if isinstance(v, SymArray) else ev(v)
                    el["sigma"] = Sym(sol.get(I))
                    again = ev(price_of(c.cls(**el), z))
                    return ([("one volatility per element", X.eq(sol.shp[0], M)),
                             ("element i reproduces its price", X.or_(X.not_(X.eq(zero, X.ZERO)), eq(again, pe)))]
                            + same_state(s0, s1, "the option is unchanged"))
                k.verify(run, lambda p: p.value, theory(), hyps=H, case=case(c, z), witness=False, reach=False, defs=False,
                         what=f"{c.name} {'call' if z == 1 else 'put'} arrays {','.join(sub_)}" + (" verbose" if verbose else ""))
    return go


for _n in VOLS:
    for _z in (1, -1):
        if _z == -1 and not BY[_n].put:
            continue
        task(f"{_n} {_z}")(scalar(BY[_n], _z))
        task(f"{_n} {_z} bracket")(bracket(BY[_n], _z))
        if BY[_n].put:
            task(f"{_n} {_z} arrays")(arrays(BY[_n], _z))
