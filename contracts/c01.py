"""C01: the univariate normal density and distribution function."""
import numpy as np
from .common import *
from pyvc.interval import Ival, bound_error

META = dict(trusted=["interval arithmetic of pyvc/interval.py (widened 2^-50 per operation)",
                     "scipy.special.ndtr accurate to 4e-16 as the reference for Phi"],
            assumptions=["x real and finite"])
x = X.var("x", "real", True)
y = X.var("y")



def probe():
    """an instance to call the helpers on (they are methods of every option)"""
    return fo.GBSOption(100, 100, 1, 0.1, 0.1, 0.2)


def cs(env, p):
    v = env.get("x", env.get("y", 0.0))
    return [["cdf", dict(x=v)], ["cdf", dict(x=-v)], ["pdf", dict(x=v)]]


@task("density")
def dens(k):
    k.verify(lambda: probe()._NDF(Sym(y)), lambda p: [("exp(-x^2/2)/sqrt(2 pi)", eq(p.value, X.ndf(y)))],
             theory(y=(-6, 6)), case=cs, what="_NDF")


@task("distribution function")
def dist(k):
    unstub()
    try:
        dist_(k)
    finally:
        pass


def dist_(k):
    th = theory(x=(0.01, 7))

    def post(p):
        hi, lo, z = [ev(v) for v in p.value]
        pr = G.ENG.prover
        out = [("N(-x) = 1 - N(x)", X.eq(add(hi, lo), X.ONE)), ("|N(0) - 1/2| <= 1e-9", X.and_(X.le(sub(z, div(1, 2)), C(1e-9)), X.le(sub(div(1, 2), z), C(1e-9))))]
        (T,), _ = pr.simp2(p.ctx, hi)
        if pr.th.N.equal(T, N(x)):
            out.append(("|N - Phi| <= 7.5e-8", X.TRUE))
            return out
        out.append(("N <= 1", X.le(T, X.ONE)))
        from scipy.special import ndtr
        try:
            D = X.sub(X.diff(T, x), X.ndf(x))
            ok, st, worst = bound_error(T, D, x, ndtr, 0.0, 7.0, 7.5e-8)
            k.stats["interval_cells"] = k.stats.get("interval_cells", 0) + st["cells"]
            tl, thh = Ival(x, 7.0, float("inf"))(T)
            tail = bool(max(1 - tl, thh - (1 - 1.3e-12)) <= 7.5e-8)
            k.obl("|N(x) - Phi(x)| <= 7.5e-8 for 0 < x <= 7", "proved" if ok else ("refuted" if worst is not None else "unknown"),
                  "interval" + ("" if ok else f" worst near x={worst}"))
            k.obl("|N(x) - Phi(x)| <= 7.5e-8 for x >= 7", "proved" if tail else "unknown", "interval")
            if worst is not None:
                k.hint([["cdf", dict(x=worst)], ["cdf", dict(x=-worst)]])
            tl, thh = Ival(x, np.linspace(0, 7, 701)[:-1], np.linspace(0, 7, 701)[1:])(T)
            k.obl("0 <= N(x)", "proved" if bool(np.all(tl >= 0)) else "unknown", "interval")
        except (ValueError, X.NoDiff) as ex:
            k.obl("|N(x) - Phi(x)| <= 7.5e-8", "unknown", f"{type(ex).__name__} {ex}")
        return out

    def run():
        o = probe()
        return o._CND(Sym(x)), o._CND(-Sym(x)), o._CND(Sym(X.ZERO))
    k.verify(run, post, th, case=cs, what="_CND")


def unstub():
    if hasattr(fo.base._Base, "_vc_real_CND"):
        fo.base._Base._CND = fo.base._Base._vc_real_CND


@task("arrays elementwise")
def arr(k):
    unstub()
    from pyvc.arrays import SymArray
    m = X.var("m", "int", True)
    th = theory(m=(1, 6))
    i = X.var("i", "int")

    def run():
        o = probe()
        a = SymArray.make((m,), lambda ix: X.app("xs", *ix))
        one = o._CND(Sym(X.app("xs", i)))
        one_d = o._NDF(Sym(X.app("xs", i)))
        return o._CND(a), one, o._NDF(a), one_d

    def post(p):
        c, c1, d, d1 = p.value
        return [("shape", X.and_(X.eq(c.shp[0], m), X.eq(d.shp[0], m))),
                ("cdf of an array is the cdf of each element", X.eq(c.get(i), ev(c1))),
                ("density of an array is the density of each element", X.eq(d.get(i), ev(d1)))]
    k.verify(run, post, th, hyps=[X.le(X.ZERO, i), X.lt(i, m)], what="elementwise",
             case=lambda env, p: [["arr", dict(xs=[-3.0, -0.5, 0.0, 0.2, 1.7, 4.0])]])
