"""C20: vectorised inputs price element by element."""
import itertools
from .classes import *
from pyvc.arrays import SymArray

META = dict(trusted=["numpy elementwise arithmetic and broadcasting (the array semantics of the engine)",
                     "numdifftools.Derivative on an array differentiates element by element"],
            assumptions=["arrays are one-dimensional, of one common length m >= 2; the scalar results are those of C03, C05-C07, C17"])
stub_normals(fo)
M = X.var("m", "int", True)
I = X.var("i", "int")
VEC = ["GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"]


def vec(q):
    return SymArray.make((M,), lambda ix: X.app(q + "_", *ix))


def subsets(c):
    n = len(c.params)
    if n <= 6:
        return [s for k in range(1, n + 1) for s in itertools.combinations(c.params, k)]
    out = [(q,) for q in c.params] + [tuple(c.params)] + [tuple(p for p in c.params if p != q) for q in c.params]
    return out + [(c.params[i], c.params[(i + 1) % n]) for i in range(n)]


def methods(c):
    fd = c.name in VEC[:3]
    out = [("call", {}), ("put", {})]
    for z in (True, False):
        for m in ("delta", "theta", "lamb") + (() if c.name == "MiltersenSchwartzOption" else ("rho",)):
            out.append((m, dict(call=z)))
            if fd and (m != "rho" or c.name == "Black76Option"):
                out.append((m, dict(call=z, method="fdm")))
        out.append(("greeks", dict(call=z)))
        if fd:
            out.append(("c_of_c", dict(call=z)))
    for m in ("vega", "gamma"):
        out.append((m, {}))
        if fd:
            out.append((m, dict(method="fdm")))
    return out


def compare(got, want, label):
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(got) != list(want):
            return [(f"{label}: mapping over {list(want)}", X.FALSE)]
        return [g for q in want for g in compare(got[q], want[q], f"{label}[{q}]")]
    if not isinstance(got, SymArray):
        return [(f"{label} is not an array", X.FALSE)]
    if isinstance(want, SymArray):
        if len(want.shp) == 0:
            return compare(got, Sym(want.get()), label)
        w = [want.get(X.const(j)) for j in range(3)]
        ok = X.and_(*[X.eq(a, b) for a, b in zip(got.shp, (M, X.const(3)))]) if len(got.shp) == 2 else X.FALSE
        return [(f"{label} shape", ok)] + ([(f"{label}[i, {j}]", X.eq(got.get(I, X.const(j)), w[j])) for j in range(3)] if ok is not X.FALSE else [])
    if len(got.shp) != 1:
        return [(f"{label} has {len(got.shp)} dimensions", X.FALSE)]
    return [(f"{label} length", X.eq(got.shp[0], M)), (f"{label}[i]", X.eq(got.get(I), ev(want)))]


def check(c, part):
    def go(k):
        subs = [s for j, s in enumerate(subsets(c)) if j % 2 == part]
        for sub_ in subs:
            H = [X.le(X.ZERO, I), X.lt(I, M), X.lt(X.ONE, M)] + [X.lt(X.ZERO, X.app(q + "_", I)) for q in sub_ if FLOATS[q] == "pos"]
            for q in c.params:
                if q.startswith("rho"):
                    x = X.app(q + "_", I) if q in sub_ else c.sym(q)
                    H += [X.lt(C(-1), x), X.lt(x, X.ONE)]

            def run():
                a = {q: (vec(q) if q in sub_ else Sym(c.sym(q))) for q in c.params}
                e = {q: (Sym(X.app(q + "_", I)) if q in sub_ else Sym(c.sym(q))) for q in c.params}
                out = []
                o, s = c.cls(**a), c.cls(**e)
                for m, kw in methods(c):
                    need = {"delta": None}
                    got, want = getattr(o, m)(**kw), getattr(s, m)(**kw)
                    lab = m + ("" if not kw else "(" + ",".join(f"{q}={v}" for q, v in kw.items()) + ")")
                    out += compare(got, want, lab)
                return out
            k.verify(run, lambda p: p.value, theory(), hyps=H, witness=False, reach=False, defs=False,
                     case=lambda env, p: [["vec", rtcase(c, arrays=list(sub_), seed=s)] for s in (1, 2)], what=f"{c.name} arrays {','.join(sub_)}")
    return go


for _n in VEC:
    for _part in (0, 1):
        task(f"{_n} {_part}")(check(BY[_n], _part))
