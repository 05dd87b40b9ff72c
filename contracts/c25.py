"""C25: Wiener paths, plain and Asian payoffs, Sobol normal innovations, for every number of paths and steps."""
from .common import *
from pyvc import engine as G
from pyvc.arrays import SymArray
from pyvc.loops import ScalarCand, ArrayCand

mc = fo.monte_carlo_options
META = dict(trusted=["scipy.stats.qmc.Sobol: point j >= 1 of the unscrambled sequence lies strictly inside the unit cube, scrambled points are arbitrary",
                     "scipy.stats.norm.ppf: the standard normal quantile, finite strictly inside (0, 1)"],
            assumptions=["numbers of paths and steps >= 1, t and step > 0, real parameters",
                         "the redrawing of non-finite innovations terminates (partial correctness: with probability one, not proved)"])
M, D = X.var("paths", "int", True), X.var("steps", "int", True)
i, j = X.var("i", "int"), X.var("j", "int")
dt = X.var("dt", "real", True)
HY = [X.le(X.ONE, M), X.le(X.ONE, D)]
IN1 = X.and_(X.le(X.ZERO, i), X.lt(i, M))
IN2 = X.and_(IN1, X.le(X.ZERO, j), X.lt(j, D))


def quantile_finite(x):
    """points 1, 2, ... of the unscrambled sequence have finite quantiles; point 0 is the origin"""
    if x.op == "app" and x.args[0] == "ppf" and x.args[1].op == "app" and x.args[1].args[0] == "sobol":
        return X.le(X.ONE, x.args[1].args[2])


def th_():
    th = theory(paths=(1, 3), steps=(1, 3), dt=(.01, 1))
    th.bools["isfinite"] = quantile_finite
    th.specnum = dict(th.specnum or {}, isfinite=lambda x: True)
    return th


def total(f, n):
    q = X.fresh("q", "int")
    return X.summation(q, f(q), n)


def given(name):
    return SymArray.make((M, D), lambda ix: X.app(name, *ix))


def case(what, **a):
    return lambda env, p: [[what, dict(a, seed=1)]]


def shape(v, *n):
    if not isinstance(v, SymArray) or len(v.shp) != len(n):
        raise Failed("shape of the result")
    return X.and_(*[X.eq(a, b_) for a, b_ in zip(v.shp, n)])


@task("wiener path")
def wiener(k):
    def run():
        e = given("e")
        return mc.WienerPath(e, Sym(sigma), Sym(dt), Sym(b)).generate_path(), e

    def post(p):
        v, e = p.value
        w = add(mul(sub(b, div(mul(sigma, sigma), 2)), dt), mul(sigma, sqrt(dt), X.app("e", i, j)))
        return [("shape", shape(v, M, D)), ("increment", X.implies(IN2, eq(v.get(i, j), w))),
                ("innovations untouched", X.implies(IN2, eq(e.get(i, j), X.app("e", i, j))))]
    k.verify(run, post, th_(), hyps=HY, case=case("wiener"), what="wiener")


class Path:
    def generate_path(self, **kw):
        return given("p")


def payoff(cls, z):
    def go(k):
        def run():
            o = getattr(mc, cls)(Path(), Sym(S), Sym(K), Sym(t), Sym(r), Sym(b), Sym(sigma))
            return o.call() if z == 1 else o.put()

        def upto(m):
            return mul(S, exp(total(lambda q: X.app("p", i, q), m)))

        def post(p):
            v = p.value
            x = upto(D) if cls.startswith("Plain") else div(total(lambda q: upto(add(q, 1)), D), D)
            return [("one payoff per path", shape(v, M)),
                    ("discounted payoff", X.implies(IN1, eq(v.get(i), mul(exp(neg(mul(r, t))), X.max_(mul(z, sub(x, K)), C(0))))))]
        k.verify(run, post, th_(), hyps=HY, case=case("payoff", cls=cls, z=z), what="payoff")
    return go


for c_ in ("PlainVanillaPayoff", "ArithmeticAsianPayoff"):
    for z_ in (1, -1):
        task(f"{c_} {'call' if z_ == 1 else 'put'}")(payoff(c_, z_))


# ------------------------------------------------------------------ innovations
def fin(x):
    return X.app("isfinite", x, sort="bool")


def sobol(scramble, eps):
    def go(k):
        def run():
            e = given("given") if eps else None
            o = mc.NormalSobolInnovations(Sym(M), Sym(D), e)
            v = o.sample_innovation(scramble) if scramble is not None else o.sample_innovation()
            return v, e

        def post(p):
            v, e = p.value
            if eps:
                return [("the passed innovations", v is e)]
            out = [("shape", shape(v, M, D)), ("finite", X.implies(IN2, fin(ev(v.get(i, j)))))]
            if scramble is False:
                out.append(("normal quantiles of points 1..paths", X.implies(IN2, eq(v.get(i, j), X.app("ppf", X.app("sobol", D, add(i, 1), j))))))
            return out
        k.verify(run, post, th_(), hyps=HY, case=case("sobol", scramble=scramble, eps=eps), what="sobol")
    return go


for s_ in (None, True, False):
    for e_ in (False, True):
        task(f"sobol scramble={s_}{' given' if e_ else ''}")(sobol(s_, e_))


def untouched(scramble):
    """when the draw is finite already it is returned as it is: the quantile of every Sobol point, in order"""
    def go(k):
        def run():
            o = mc.NormalSobolInnovations(Sym(M), Sym(D), None)
            return o.sample_innovation(scramble) if scramble is not None else o.sample_innovation()

        def post(p):
            x = p.value.get(i, j)
            names = {y.args[0] for y in X.subterms(x) if y.op == "app" and y.args[0].startswith("sobol@")}
            if len(names) != 1:
                raise Failed("not the quantiles of one scrambled draw")
            return [("normal quantiles of the points", X.implies(IN2, eq(p.value.get(i, j), X.app("ppf", X.app(names.pop(), D, i, j)))))]
        th = th_()
        th.bools["isfinite"] = lambda x: X.TRUE
        k.verify(run, post, th, hyps=HY, case=case("sobol", scramble=scramble), what="finite draw")
    return go


for s_ in (None, True):
    task(f"sobol finite draw scramble={s_}")(untouched(s_))
