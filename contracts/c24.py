"""C24: the Monte Carlo driver, for every innovation, path and payoff model and every number of loops, paths and steps.

The three models are user classes.  The ones below are parametric: draw k of the generator is an arbitrary array E(k, row, step),
the payoff of a row is an arbitrary function P of an arbitrarily weighted sum of the row's innovations (so it determines the row)
and of every parameter the path and payoff constructors receive.
"""
from .common import *
from pyvc import engine as G
from pyvc.arrays import SymArray, simp_int
from pyvc.loops import ScalarCand, ArrayCand

mc = fo.monte_carlo_options
META = dict(trusted=["the caller's models: sample_innovation draws one array of the announced shape per call, path and payoff objects depend on nothing but their constructor arguments"],
            assumptions=["mc_loops, mc_paths, path_length >= 1, t > 0, real market parameters, the innovations are not all equal when standardised",
                         "exact real arithmetic: the early return with a warning when a loop's mean overflows to infinity exists in floating point only (checked at run time)"])
L, M, D = X.var("loops", "int", True), X.var("paths", "int", True), X.var("steps", "int", True)
i, j = X.var("i", "int"), X.var("j", "int")
MODELS = []


def total(f, n):
    q = X.fresh("q", "int")
    return X.summation(q, f(q), n)


def dot(f, n):
    return total(lambda q: mul(X.app("w", q), f(q)), n)


class Inno:
    def __init__(self, *a):
        self.a = a
        MODELS.append(a)

    def sample_innovation(self):
        en = G.ENG
        k = en.ghost["draws"]
        en.ghost["draws"] = simp_int(add(k, 1))
        return SymArray.make((ev(self.a[0]), ev(self.a[1])), lambda ix: X.app("E", k, *ix))


class Path:
    def __init__(self, *a):
        self.eps, self.a = a[0], a[1:]

    def generate_path(self):
        return self


class Payoff:
    def __init__(self, *a):
        self.path, self.a = a[0], a[1:]

    def side(self, f):
        e = self.path.generate_path().eps
        pars = [ev(x) for x in self.path.a + self.a]
        return SymArray.make((e.shp[0],), lambda ix: X.app(f, dot(lambda q: e.get(ix[0], q), e.shp[1]), *pars))

    def call(self):
        return self.side("PC")

    def put(self):
        return self.side("PP")


# ------------------------------------------------------------------ specification
PARS = [sigma, div(t, D), b, S, K, t, r, b, sigma]


def mean_payoff(f, k, anti, std):
    """mean payoff of the k-th draw"""
    mu, sd = C(0), C(1)
    if std:
        if not anti:            # a mirrored sample has mean zero
            mu = div(total(lambda a: total(lambda q: X.app("E", k, a, q), D), M), mul(M, D))
        sd = sqrt(div(total(lambda a: total(lambda q: sq(sub(X.app("E", k, a, q), mu)), D), M), mul(M, D)))

    def rows(sign):
        return total(lambda a: X.app(f, dot(lambda q: div(sub(mul(sign, X.app("E", k, a, q)), mu), sd), D), *PARS), M)
    return div(add(rows(1), rows(-1)), mul(2, M)) if anti else div(rows(1), M)


def sq(x):
    return mul(x, x)


def option(anti, std, trace=False):
    MODELS.clear()
    return mc.MonteCarloOption(Sym(L), Sym(D), Sym(M), Sym(S), Sym(K), Sym(t), Sym(r), Sym(b), Sym(sigma), Inno, Path, Payoff,
                               trace=trace, antithetic=anti, standardization=std)


def th_():
    return theory(loops=(1, 3), paths=(1, 3), steps=(1, 3))


def case(what, **a):
    return lambda env, p: [[what, dict(a, seed=1)]]


def driver(z, anti, std):
    f = "PC" if z == 1 else "PP"

    def go(k):
        def run():
            G.ENG.ghost["draws"] = X.ZERO
            o = option(anti, std)
            return o, o.call() if z == 1 else o.put()

        def tm(kind, ent, N, en):
            if kind == "array":
                yield ArrayCand(lambda c: ent.shp, lambda c, ix: X.lt(ix[0], c), lambda c, ix: mean_payoff(f, ix[0], anti, std), "mean payoffs")

        def post(p):
            o, v = p.value
            if not isinstance(v, SymArray) or len(v.shp) != 1:
                raise Failed("one value per loop expected")
            ok = X.and_(X.le(X.ZERO, i), X.lt(i, L))
            return [("one value per loop", X.eq(v.shp[0], L)),
                    ("one draw per loop", X.eq(p.ghost["draws"], L)),
                    ("mean payoff of the loop's draw", X.implies(ok, eq(v.get(i), mean_payoff(f, i, anti, std))))]
        k.verify(run, post, th_(), hyps=[X.le(X.ONE, L), X.le(X.ONE, M), X.le(X.ONE, D)], templates=[tm], case=case("driver", z=z, anti=anti, std=std), what="driver",
                 defs=not std)
    return go


for z_ in (1, -1):
    for a_ in (False, True):
        for s_ in (False, True):
            task(f"{'call' if z_ == 1 else 'put'}{' antithetic' if a_ else ''}{' standardised' if s_ else ''}")(driver(z_, a_, s_))


def again(z):
    """a second valuation with the same object draws on and is not influenced by the first one"""
    def go(k):
        f = "PC" if z == 1 else "PP"

        def run():
            G.ENG.ghost["draws"] = X.ZERO
            o = option(True, False)
            first = o.put() if z == 1 else o.call()
            return o.call() if z == 1 else o.put()

        def tm(kind, ent, N, en):
            if kind == "array":
                for g, at in (("PC", C(0)), ("PP", C(0)), ("PC", L), ("PP", L)):
                    yield ArrayCand(lambda c: ent.shp, lambda c, ix: X.lt(ix[0], c), lambda c, ix, g=g, at=at: mean_payoff(g, add(at, ix[0]), True, False), "mean payoffs")

        def post(p):
            v = p.value
            ok = X.and_(X.le(X.ZERO, i), X.lt(i, L))
            return [("length", X.eq(v.shp[0], L)), ("draws", X.eq(p.ghost["draws"], mul(2, L))),
                    ("draws of its own", X.implies(ok, eq(v.get(i), mean_payoff(f, add(L, i), True, False))))]
        k.verify(run, post, th_(), hyps=[X.le(X.ONE, L), X.le(X.ONE, M), X.le(X.ONE, D)], templates=[tm], case=case("driver", z=z, anti=True, std=False), what="second valuation")
    return go


for z_ in (1, -1):
    task(f"second valuation {'call' if z_ == 1 else 'put'}")(again(z_))


@task("generator")
def generator(k):
    """the generator gets the numbers of paths and steps and the passed innovations, once"""
    e = X.var("tag")

    def run():
        G.ENG.ghost["draws"] = X.ZERO
        MODELS.clear()
        tag = Sym(e)
        o = mc.MonteCarloOption(Sym(L), Sym(D), Sym(M), Sym(S), Sym(K), Sym(t), Sym(r), Sym(b), Sym(sigma), Inno, Path, Payoff, eps=tag)
        o.call()
        return tag, list(MODELS)

    def post(p):
        tag, m = p.value
        if len(m) != 1 or len(m[0]) != 3 or m[0][2] is not tag:
            raise Failed(f"generator built with {m!r}")
        return [("paths", eq(m[0][0], M)), ("steps", eq(m[0][1], D))]
    k.verify(run, post, th_(), hyps=[X.le(X.ONE, L), X.le(X.ONE, M), X.le(X.ONE, D)], case=case("driver", z=1, anti=False, std=False), what="generator")


# ------------------------------------------------------------------ trace
def numbers(a):
    return [x for x in a if isinstance(x, (Sym, int, float, SymArray)) and not isinstance(x, bool)]


def trace(z):
    """with trace on, print number q reports loop q: its number, its mean payoff and the mean of all loops up to it"""
    f = "PC" if z == 1 else "PP"

    def go(k):
        seen = {}

        def said(a):
            nums = numbers(a)
            en = G.ENG
            if not nums:
                return
            q = en.ghost["printed"]
            en.ghost["printed"] = simp_int(add(q, 1))
            node = en.stack[en.pos - 1] if en.pos else None
            if getattr(node, "stage", None) != "step":
                if not hasattr(node, "stage"):
                    seen[("straight", len(seen))] = [("a line outside the loop", "unknown")]
                return
            v = [mean_payoff(f, q, False, False), div(total(lambda c: mean_payoff(f, c, False, False), add(q, 1)), add(q, 1))]
            goals = [("number", lambda: eq(nums[0], q)), ("mean payoff", lambda: eq(nums[1], v[0])), ("running mean", lambda: eq(nums[2], v[1]))]
            out = []
            for nm, g in goals:
                try:
                    out.append((nm, en.prover.prove(en.ctx, g()).status if len(nums) == 3 else "unknown"))
                except Failed as ex:
                    out.append((nm, "unknown"))
            seen[node.label] = out

        def run():
            en = G.ENG
            en.ghost["draws"] = X.ZERO
            en.ghost["printed"] = X.ZERO
            en.on_print = said
            o = option(False, False, True)
            return o.call() if z == 1 else o.put()

        def tm(kind, ent, N, en):
            if kind == "array":
                yield ArrayCand(lambda c: ent.shp, lambda c, ix: X.lt(ix[0], c), lambda c, ix: mean_payoff(f, ix[0], False, False), "mean payoffs")
            else:           # a running total
                yield ScalarCand(lambda c: total(lambda q: mean_payoff(f, q, False, False), c), "running total")

        def post(p):
            v = p.value
            ok = X.and_(X.le(X.ZERO, i), X.lt(i, L))
            return [("the same values as without trace", X.implies(ok, eq(v.get(i), mean_payoff(f, i, False, False)))),
                    ("one line per loop", X.eq(p.ghost["printed"], L))]
        k.verify(run, post, th_(), hyps=[X.le(X.ONE, L), X.le(X.ONE, M), X.le(X.ONE, D)], templates=[tm], case=case("trace", z=z), what="trace")
        if not seen:
            k.obl("trace/lines", "unknown", "nothing printed in a loop")
        for out in seen.values():
            for nm, st in out:
                k.obl(f"trace/{nm}", st)
                if st != "proved":
                    k.hint(case("trace", z=z)(None, None))
    return go


for z_ in (1, -1):
    task(f"trace {'call' if z_ == 1 else 'put'}")(trace(z_))
