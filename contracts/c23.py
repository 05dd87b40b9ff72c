"""C23: Heston-Nandi GARCH simulation, filter, likelihood and fit, for series of every length.

HL(lambda, omega, alpha, beta, gamma, rf, k) is the filtered variance of day k of the series x, HS(k) the simulated variance
under the innovations Z (ghost functions, defined by the published recursion and proved positive by induction).
"""
import itertools
from .common import *
from pyvc import engine as G
from pyvc.arrays import SymArray
from pyvc.loops import ScalarCand, ArrayCand

hn = fo.heston_nandi_options
META = dict(trusted=["scipy.optimize.minimize: returns some point x and the value of the objective there (that it is a minimum is not proved; scipy's L-BFGS-B breaks this contract when its line search ends abnormally at a point of undefined likelihood: `minimum` is then nan)",
                     "numpy random generator: arbitrary standard draws of the requested size"],
            assumptions=["omega, alpha, beta > 0 and 1 - alpha gamma^2 - beta > 0 at the parameters evaluated; the series and the innovations are arbitrary "
                         "real arrays (of variance strictly between 0 and 1 when omega is left to its default); n >= 1, n_start >= 0, innovations passed by the caller have the announced lengths"])
om, al, be = X.var("om", "real", True), X.var("al", "real", True), X.var("be", "real", True)
lamb, gm, rf = X.var("lamb"), X.var("gm"), X.var("rf")
w1, w2, w3, g0 = X.var("w1"), X.var("w2"), X.var("w3"), X.var("g0")
N_, n0 = X.var("N", "int", True), X.var("n0", "int")
i = X.var("i", "int")
for f in ("HL", "HS"):
    X.POSFUN.add(f)


def sq(x):
    return mul(x, x)


def xs(k):
    return X.app("x", k)


def logit(w):
    return div(1, add(1, exp(neg(w))))


def den(P):
    l, o, a, b, g, f = P
    return sub(sub(1, mul(a, g, g)), b)


def HL(P, k):
    return X.app("HL", *P, k)


def zL(P, k):
    return div(sub(sub(xs(k), P[5]), mul(P[0], HL(P, k))), sqrt(HL(P, k)))


def rec(P, z, h):
    l, o, a, b, g, f = P
    return add(o, mul(a, sq(sub(z, mul(g, sqrt(h))))), mul(b, h))


def unL(*a):
    P, k = a[:6], a[6]
    base = div(add(P[1], P[2]), den(P))
    if X.is_const(k) and X.cval(k) <= 0:
        return base
    k1 = sub(k, 1)
    return X.ite(X.le(k, X.ZERO), base, rec(P, zL(P, k1), HL(P, k1)))


def llh(P):
    v = X.fresh("k", "int")
    h, z = HL(P, v), zL(P, v)
    body = add(div(log(mul(2, X.PI)), 2), div(sq(z), 2), div(log(h), 2))
    return X.summation(v, body, N_)


class Specs(dict):
    """numbers for refutation: the optimiser's point is a stationary parameter set"""
    def __contains__(self, k):
        return k.startswith("argmin@") or dict.__contains__(self, k)

    def __getitem__(self, k):
        if k.startswith("argmin@"):
            return lambda j: [0.4, -1.0, -2.0, -0.5, 0.3][int(j)]
        return dict.__getitem__(self, k)


DOM = dict(N=(1, 6), n=(1, 6), n0=(0, 4), om=(.05, .6), al=(.05, .3), be=(.1, .5), lamb=(-1.0, 3.0), gm=(-1.0, 1.0), rf=(-.1, .1),
           vx=(.05, .6), w1=(-3.0, 0.5), w2=(-4.0, -1.5), w3=(-2.0, 0.2), g0=(-1.0, 1.0))


def th_(fn="HL", un=unL):
    th = theory(**DOM)
    th.unfolds[fn] = un
    th.specnum = Specs(th.specnum or {})
    return th


def tmL(kind, ent, N, en):
    for P in pars(en):
        for k0 in (1, 0):
            if kind == "array":
                if len(ent.shp) == 1:
                    for f in (HL, zL):
                        yield ArrayCand(lambda c: ent.shp, lambda c, ix, k0=k0: X.lt(ix[0], add(c, k0)), lambda c, ix, f=f, P=P: f(P, ix[0]), f.__name__)
            else:
                for f in (HL, zL):
                    for d in (0, -1):
                        yield ScalarCand(lambda c, f=f, P=P, d=d, k0=k0: f(P, add(c, k0 + d)), f.__name__)


def pars(en):
    out = list(PARS)
    x = getattr(en, "minvar", None)
    if x is not None:
        out.insert(0, at(x, SYM[0], RF[0]))
    return out


PARS, SYM, RF = [], [True], [rf]


def at(x, symmetric, rate):
    """model parameters of the transformed vector x"""
    x = [G.lift(x[j]) for j in range(5)]
    return (x[0], logit(x[1]), logit(x[2]), logit(x[3]), X.ZERO if symmetric else x[4], rate)


def series():
    return SymArray.make((N_,), lambda ix: xs(ix[0]))


def inside(e):
    return X.or_(X.lt(i, X.ZERO), X.le(N_, i), e)


def same_series(x):
    return inside(eq(x.get(i), xs(i)))


def case(name, **more):
    def f(env, p):
        return [[name, dict(more, seed=q)] for q in (1, 2)]
    return f


# ------------------------------------------------------------------ likelihood
def likelihood(symmetric, obj):
    def go(k):
        P = (lamb, logit(w1), logit(w2), logit(w3), X.ZERO if symmetric else g0, rf)
        PARS[:] = [P]

        def run():
            x = series()
            v = hn._llhHNGarch(syms(lamb, w1, w2, w3, g0), False, symmetric, Sym(rf), x, **({"ret_obj": True} if obj else {}))
            return v, x

        def post(p):
            v, x = p.value
            out = [("series untouched", same_series(x))]
            if obj:
                out += [("filtered variances", X.and_(eq(v.h.shp[0], N_), inside(eq(v.h.get(i), HL(P, i))))),
                        ("filtered innovations", X.and_(eq(v.z.shp[0], N_), inside(eq(v.z.get(i), zL(P, i)))))]
                v = v.llhHNGarch
            return out + [("negative Gaussian log-likelihood", eq(v, llh(P)))]
        k.verify(run, post, th_(), hyps=[X.lt(X.ZERO, den(P)), X.le(X.ONE, N_)], templates=[tmL], case=case("likelihood", symmetric=symmetric),
                 what="filter", defs=False)
    return go


if hasattr(hn, "_llhHNGarch"):
    for s_ in (True, False):
        for o_ in (True, False):
            task(f"likelihood {'symmetric' if s_ else 'asymmetric'}{' with filter' if o_ else ''}")(likelihood(s_, o_))


# ------------------------------------------------------------------ fit
vx = X.var("vx", "real", True)


def variance(a, ddof):
    """the variance of the series, by its name"""
    q = G.ENG.fresh("q", "int")
    if ddof == 0 and len(a.shp) == 1 and a.shp[0] is N_ and X.eq(a.get(q), xs(q)) is X.TRUE:
        return Sym(vx)


def fit(symmetric, given, trace):
    def go(k):
        given_ = dict(omega=Sym(om), alpha=Sym(al)) if given == "all" else dict(omega=Sym(om)) if given == "omega" else {}

        def starts():
            o = om if given else vx
            a = al if given == "all" else mul(C(0.1), o)
            wo, wa, wb = (neg(log(div(sub(1, q), q))) for q in (o, a, be))
            return [lamb, wo, wa, wb, gm]

        def run():
            SYM[0], RF[0] = symmetric, rf
            G.ENG.cut_var = variance
            PARS[:] = [at([Sym(q) for q in starts()], symmetric, rf)]
            x = series()
            kw = dict(given_, lamb=Sym(lamb), beta=Sym(be), gamma=Sym(gm), rf=Sym(rf))
            if symmetric is not True or given:
                kw["symmetric"] = symmetric
            return hn.hngarch_fit(x, trace=trace, **kw), x

        def post(p):
            o, x = p.value
            ev = [e for e in p.events if e[0] == "minimize"]
            if len(ev) != 1:
                raise Failed(f"{len(ev)} optimiser runs")
            _, f, start, args, method, kw, xm, v = ev[0]
            P0, P = PARS[0], at(xm, symmetric, rf)
            st = starts()
            out = [("series untouched", same_series(x)),
                   ("starts at the given parameters", X.and_(*[eq(start.get(C(j)), st[j]) for j in range(4 if symmetric else 5)])),
                   ("minimises the negative log-likelihood", eq(v, llh(P))),
                   ("initial likelihood", eq(o["value"], llh(P0))),
                   ("reported likelihood", eq(o["minimum"], add(neg(llh(P)), mul(N_, sqrt(mul(2, X.PI)))))),
                   ("filtered variances", inside(eq(o["h"].get(i), HL(P, i)))),
                   ("filtered innovations", inside(eq(o["z"].get(i), zL(P, i)))),
                   ("lengths", X.and_(eq(o["h"].shp[0], N_), eq(o["z"].shp[0], N_))),
                   ("persistence", eq(o["persistence"], add(P[3], mul(P[2], P[4], P[4])))),
                   ("stationary variance", eq(o["sigma2"], div(add(P[1], P[2]), den(P))))]
            for nm, q in zip(("lamb", "omega", "alpha", "beta", "gamma", "rf"), P):
                out.append((f"model {nm}", eq(o["model"][nm], q)))
            out.append(("estimates", X.and_(*[eq(o["estimate"].get(C(j)), P[j]) for j in range(5)])))
            return out
        k.verify(run, post, th_(), hyps=[X.le(X.ONE, N_), X.lt(om, X.ONE), X.lt(vx, X.ONE), X.lt(al, X.ONE), X.lt(be, X.ONE)], templates=[tmL],
                 case=case("fit", symmetric=symmetric, given=given), what="fit", defs=False)
    return go


for s_ in (True, False):
    for g_ in ("all", "omega", ""):
        for t_ in ((False, True) if g_ == "all" else (False,)):
            task(f"fit {'symmetric' if s_ else 'asymmetric'} given {g_ or 'nothing'}{' traced' if t_ else ''}")(fit(s_, g_, t_))


# ------------------------------------------------------------------ simulation
PS = (lamb, om, al, be, gm, rf)


def Z(k):
    return X.app("inn", k)


def HS(k):
    return X.app("HS", k)


def simx(k, z):
    return add(rf, mul(lamb, HS(k)), mul(sqrt(HS(k)), z(k)))


def sim(mode):
    """innovations: 'both' passed, 'inno' passed without a start, 'drawn' with or without a start, 'start' passed and the rest drawn"""
    def go(k):
        box = {}

        def zf(k_):
            return box["z"](k_)

        def un(k_):
            base = div(add(om, al), den(PS))
            if X.is_const(k_) and X.cval(k_) <= 0:
                return base
            k1 = sub(k_, 1)
            return X.ite(X.le(k_, X.ZERO), base, rec(PS, box["z"](k1), HS(k1)))

        def tm(kind, ent, N, en):
            box["z"] = find(en)
            if kind == "array" and len(ent.shp) == 1:
                for k0 in (1, 0):
                    for f in (HS, lambda q: simx(q, box["z"])):
                        yield ArrayCand(lambda c: ent.shp, lambda c, ix, k0=k0: X.lt(ix[0], add(c, k0)), lambda c, ix, f=f: f(ix[0]), "HS")
            elif kind != "array":
                for d in (1, 0):
                    yield ScalarCand(lambda c, d=d: HS(add(c, d)), "HS")
        start = n0 if "start" in mode or mode == "both" else X.ZERO
        passed_start = mode in ("both", "start passed")
        passed = mode in ("both", "passed", "passed, start drawn")

        def draws(en):
            return [e[1] for e in en.path.events if e[0] == "normal"]

        def find(en):
            """the innovations as the caller must see them: start block first"""
            d = draws(en)
            if passed_start or passed:
                first, rest = (lambda q: X.app("inn0", q)), (lambda q: X.app("inn", q))
                if not passed:
                    rest = lambda q: by_len(d, n).get(q)
                if not passed_start and "start" in mode:
                    first = lambda q: by_len(d, n0).get(q)
            else:
                rest = lambda q: by_len(d, n).get(q)
                first = lambda q: by_len(d, n0).get(q)
            if start is X.ZERO:
                return rest

            def z(q):
                c = X.lt(q, start)
                s = G.ENG.ctx.decide(c) if G.ENG is not None else None
                a = first(q) if s is not False else None
                b = rest(sub(q, start)) if s is not True else None
                return a if b is None else b if a is None else X.ite(c, a, b)
            return z

        def by_len(d, m):
            for a in d:
                if isinstance(a, SymArray) and X.eq(a.shp[0], m) is X.TRUE or a.shp[0] is m:
                    return a
            raise Failed("no draw of the requested length")

        def run():
            kw = dict(lamb=Sym(lamb), omega=Sym(om), alpha=Sym(al), beta=Sym(be), gamma=Sym(gm), rf=Sym(rf), n=Sym(n))
            if start is not X.ZERO:
                kw["n_start"] = Sym(n0)
            a = b = None
            if passed:
                a = kw["inno"] = SymArray.make((n,), lambda ix: X.app("inn", ix[0]))
            if passed_start:
                b = kw["inno_start"] = SymArray.make((n0,), lambda ix: X.app("inn0", ix[0]))
            return hn.hngarch_sim(**kw), a, b

        def post(p):
            v, a, c = p.value
            box["z"] = find(G.ENG)
            nh = [X.lt(i, X.ZERO), X.le(n, i)]
            out = [("length", eq(v.shp[0], n)),
                   ("returns follow the recursion", X.or_(*nh, eq(v.get(i), simx(add(i, start), box["z"]))))]
            if a is not None:
                out.append(("innovations untouched", X.or_(*nh, eq(a.get(i), X.app("inn", i)))))
            if c is not None:
                out.append(("start innovations untouched", X.or_(X.lt(i, X.ZERO), X.le(n0, i), eq(c.get(i), X.app("inn0", i)))))
            return out
        hy = [X.le(X.ONE, n), X.lt(X.ZERO, den(PS))] + ([X.le(X.ONE, n0)] if start is not X.ZERO else [])
        k.verify(run, post, th_("HS", un), hyps=hy, templates=[tm], case=case("simulation", mode=mode), what="path", defs=False)
    return go


for m_ in ("both", "passed", "drawn", "start passed", "start drawn", "passed, start drawn"):
    task(f"simulation, innovations {m_}")(sim(m_))


@task("variances stay positive (induction), stationary law")
def positive(k):
    h, z = X.var("h", "real", True), X.var("z")
    k.lemma("first day", X.lt(X.ZERO, div(add(om, al), den(PS))), th_(), [X.lt(X.ZERO, den(PS))])
    k.lemma("next day", X.lt(X.ZERO, rec(PS, z, h)), th_())
    # E[(z - g sqrt h)^2] = 1 + g^2 h for a standard normal z: the start value is the fixed point of the mean variance
    m = div(add(om, al), den(PS))
    k.lemma("start value is the stationary mean", eq(m, add(om, mul(al, add(1, mul(gm, gm, m))), mul(be, m))), th_(), [X.lt(X.ZERO, den(PS))])
