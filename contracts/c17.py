"""C17: the finite-difference greeks differentiate the object's own price."""
from .classes import *

META = dict(trusted=["numdifftools.Derivative(f, n)(x) is the n-th derivative of f at x (its discretisation error is checked at run time only)",
                     "the price of each class through its contract: a function of the parameters it reports (C03, C06-C09, C12-C16, C18)"],
            assumptions=["vega and gamma are those of the call (the put's are equal for the closed-form models)"])
SPOT = {"SpreadApproxOption": True}


def deriv(c, z, wrt, n=1):
    a = c.args(**c.hidden)
    x = a[wrt]
    v = X.fresh("d", "real", x in X.POSVARS)
    return X.binder("deriv", v, price(c, z, dict(a, **{wrt: v})), C(n), x)


def want(c, z):
    """name -> term or mapping of terms"""
    p = price(c, z, c.args(**c.hidden))
    two = c.spot is None
    if two:
        d = {q: deriv(c, z, q) for q in ("S1", "S2")}
        out = dict(delta=d, vega={q: deriv(c, 1, q) for q in ("sigma1", "sigma2")}, gamma={q: deriv(c, 1, q, 2) for q in ("S1", "S2")},
                   lamb={q: div(mul(d[q], c.args()[q]), p) for q in d}, theta=neg(deriv(c, z, "t")), rho=deriv(c, z, "r"))
    else:
        s = c.spot
        d = deriv(c, z, s)
        out = dict(delta=d, gamma=deriv(c, 1, s, 2), lamb=div(mul(d, c.args()[s]), p), theta=neg(deriv(c, z, "t")))
        if c.name == "MiltersenSchwartzOption":
            out["vega"] = [deriv(c, 1, q) for q in ("sigmaS", "sigmaE", "sigmaF")]
        else:
            out["vega"] = deriv(c, 1, "sigma")
            out["rho"] = deriv(c, z, "r")
    return out


def compare(name, got, w):
    if isinstance(w, dict):
        if not isinstance(got, dict) or set(got) != set(w):
            raise Failed(f"{name}: mapping over {sorted(w)} expected")
        return [(f"{name}[{q}]", eq(got[q], w[q])) for q in w]
    if isinstance(w, list):
        return [(f"{name}[{i}]", eq(got[i], x)) for i, x in enumerate(w)]
    return [(name, eq(got, w))]


def check(c):
    FDM = c.name in ("GBSOption", "BlackScholesOption", "Black76Option")
    def go(k):
        CASE = [["fdm", rtcase(c, z=z)] for z in ((1, -1) if c.put else (1,))]
        CASE += [["fdm", rtcase(c, z=z, b=0.0)] for z in (1, -1)] if FDM and "b" in c.params else []
        stub_price(c)
        for z in (1, -1) if c.put else (1,):
            exp_ = want(c, z)
            for g in exp_:
                if g == "rho" and FDM and c.name != "Black76Option":
                    continue

                def run(g=g):
                    o = c.make()
                    before = state(o)
                    kw = {} if g in ("vega", "gamma") or not c.put else dict(call=z == 1)
                    if FDM:
                        kw["method"] = "fdm"
                    r = getattr(o, g)(**kw)
                    return r, before, state(o)

                def post(p, g=g):
                    r, b0, b1 = p.value
                    return compare(g, r, exp_[g]) + same_state(b0, b1)
                k.verify(run, post, theory(), hyps=hyps(c), case=lambda env, p: CASE, witness=False, what=f"{c.name} {g} {'call' if z == 1 else 'put'}")
            if FDM:
                continue

            def run():
                o = c.make()
                before = state(o)
                return (o.greeks(z == 1) if c.put else o.greeks()), before, state(o)

            def post(p):
                r, b0, b1 = p.value
                out = []
                names = {("lambda" if g == "lamb" else g): w for g, w in exp_.items()}
                for g, w in names.items():
                    if g not in r:
                        raise Failed(f"greeks() lacks {g}")
                    out += compare(g, r[g], w)
                return out + same_state(b0, b1)
            k.verify(run, post, theory(), hyps=hyps(c), case=lambda env, p: CASE, witness=False, what=f"{c.name} greeks() {'call' if z == 1 else 'put'}")
    return go


def hyps(c):
    v = {q: c.sym(q) for q in c.params}
    h = []
    for q in v:
        if q.startswith("rho"):
            h += [X.lt(C(-1), v[q]), X.lt(v[q], C(1))]
    if "td" in v:
        h.append(X.lt(v["td"], v["t"]))
    return h


for _c in ALL:
    task(_c.name)(check(_c))
