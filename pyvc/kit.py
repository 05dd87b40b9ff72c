"""Contract checking kit: what the files in /verif/contracts are written in.

A contract file defines tasks.  A task builds a symbolic pre-state, calls the
real function from /repo (executed by CPython through the loader), and states
the postcondition as a term over the inputs; every path must prove it.
"""
import sys
import time
import traceback
import os
from . import expr as X
from . import engine as G
from . import solver
from .engine import Sym, SymBool, Engine, Unsupported, Budget, NeedSym
from .solver import Theory, Ctx, Prover
from .loops import ArrayCand

TASKS = []


def task(name, thorough=False):
    def deco(fn):
        TASKS.append((name, fn, thorough))
        return fn
    return deco


class Failed(Exception):
    """the path's result does not even have the shape the contract talks about"""


class Kit:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.hints = []
        self.stats = {}
        self.notes = []
        self.paths = 0
        self.vacuity = []

    def obl(self, name, status, how="", env=None):
        self.obls.append(dict(name=f"{self.name}: {name}", status=status, how=str(how)[:600], env=env))

    # -------------------------------------------------------------- hints
    def hint(self, cases):
        for c in cases or ():
            if c is not None:
                self.hints.append(c)

    # -------------------------------------------------------------- verify
    def verify(self, run, post, th, hyps=(), templates=(), case=None, what="post", max_paths=400,
               time_limit=240, budget=40.0, allow_inf=False, witness=True, raises=None, reach=True, preds=(), defs=True, branch_ms=600):
        """run(): calls the code under contract; post(path) -> [(label, goal)].
        raises(path) -> goal, or None when an exception is never allowed."""
        scale = float(os.environ.get("VC_SCALE", "1"))
        en = Engine(th, list(hyps), templates=list(templates), max_paths=max_paths, time_limit=time_limit * scale)
        en.allow_inf = allow_inf
        en.preds = list(preds)
        en.branch_ms = branch_ms        # an undecided branch is taken both ways
        en.skip_defs = not defs         # relative contracts: definedness is the same on both sides
        en.prover.budget = budget * scale
        t0 = time.time()
        try:
            paths = en.explore(run)
        except Unsupported as ex:
            self.obl(what, "unsupported", f"{ex} {where()}")
            return None
        except (Budget, NeedSym) as ex:
            self.obl(what, "unknown", f"{type(ex).__name__} {ex}")
            return None
        self.paths += len(paths)
        G.ENG = en
        alive = 0
        try:
            for i, p in enumerate(paths):
                envs = []
                if witness or (p.kind == "raise" and raises is None):
                    try:
                        w = en.prover.witness(p.ctx, tries=120)
                    except Exception:
                        w = None
                    if w is not None:
                        alive += 1
                        envs.append(w)
                        if case:
                            self.hint(case(fl(w), p))
                if p.kind == "raise":
                    if raises is not None:
                        goals = [("raises", raises(p))]
                    else:
                        goals = [(f"no exception ({type(p.value).__name__}: {p.value}) [{where(p.value)}]"[:300], X.FALSE)]
                else:
                    try:
                        en.path = p
                        en.ctx = p.ctx
                        goals = list(post(p))
                    except Failed as ex:
                        goals = [(f"result shape: {ex}", X.FALSE)]
                    except Unsupported as ex:
                        self.obl(what, "unsupported", f"{ex} {where()}")
                        continue
                    except Exception as ex:
                        goals = [(f"result shape: {type(ex).__name__}: {ex} {where(ex)}"[:300], X.FALSE)]
                for label, goal in goals:
                    if goal is True:
                        goal = X.TRUE
                    elif goal is False:
                        goal = X.FALSE
                    elif isinstance(goal, SymBool):
                        goal = goal.e
                    nm = f"{what}/{label}" + (f" [path {i + 1}]" if len(paths) > 1 else "")
                    try:
                        r = en.prover.prove(p.ctx, goal)
                    except Unsupported as ex:
                        self.obl(nm, "unsupported", ex)
                        continue
                    env = fl(r.env) if r.env else None
                    how = r.how
                    if r.status != "proved":
                        how = f"{r.how} {r.detail} pc={[X.show(c)[:80] for c in p.pc][:8]} goal={X.show(goal)[:300]}"
                        if env and case:
                            self.hint(case(env, p))
                    self.obl(nm, r.status, how, env)
            if reach and paths and witness:
                if alive:
                    self.vacuity.append(f"{self.name}: {what}: {alive}/{len(paths)} paths have a concrete witness")
                else:
                    self.obl(f"{what}/precondition and some path satisfiable", "unknown", "no witness found")
            if not paths:
                self.obl(f"{what}/some path", "unknown", "no complete path")
        finally:
            G.ENG = None
        for k, v in en.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in en.assumed_defined.items():
            for s in v:
                self.notes.append(f"defined({k}): {s}")
        for n in en.notes:
            self.notes.append(str(n))
        self.stats["wall"] = self.stats.get("wall", 0) + time.time() - t0
        return en, paths

    def lemma(self, name, goal, th=None, hyps=(), budget=30.0):
        """a lemma over the contracts (no code executed)"""
        th = th or theory()
        pr = Prover(th, budget=budget * float(os.environ.get("VC_SCALE", "1")))
        c = Ctx(th, list(hyps))
        r = pr.prove(c, goal)
        self.obl("lemma " + name, r.status, r.how, fl(r.env) if r.env else None)
        return r.status == "proved"


def where(ex=None):
    tb = ex.__traceback__ if ex is not None else sys.exc_info()[2]
    loc = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        if "finoptions" in f.co_filename:
            loc = f"{f.co_filename.split('/src/')[-1]}:{tb.tb_lineno}"
        tb = tb.tb_next
    return loc


def fl(env):
    out = {}
    for v, x in env.items():
        n = v.args[0]
        try:
            if v.sort == "int":
                out[n] = int(x)
            elif v.sort == "bool":
                out[n] = bool(x)
            elif v.sort == "complex":
                out[n] = [float(x.real), float(x.imag)]
            else:
                out[n] = float(x)
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ theory
RANGES = {
    "S": (5, 300), "K": (5, 300), "K2": (5, 300), "S1": (5, 300), "S2": (5, 300), "FT": (5, 300), "X": (5, 300),
    "t": (0.05, 3), "r": (-0.08, 0.25), "b": (-0.2, 0.3), "sigma": (0.05, 1.0), "T": (0.05, 3),
}


def mkdom(lo, hi, integer=False):
    if integer:
        return lambda rng: rng.randint(lo, hi)

    def d(rng):
        return round(rng.uniform(lo, hi), 4)
    return d


def theory(**ranges):
    th = Theory()
    th.ranges = dict(RANGES)
    th.ranges.update(ranges)

    class Dom(dict):
        def get(self, v, default=None):
            r = th.ranges.get(v.args[0])
            if r is None:
                return dict.get(self, v, default)
            if callable(r):
                return r
            return mkdom(r[0], r[1], v.sort == "int")
    th.domain = Dom()
    return th


def pos(*names):
    return [X.var(n, "real", True) for n in names]


def real(*names):
    return [X.var(n) for n in names]


def ev(v):
    """python / symbolic value -> term"""
    from .arrays import SymArray
    if isinstance(v, SymArray):
        if len(v.shp) == 0:
            return v.get()
        raise Failed(f"scalar expected, got an array of shape {tuple(X.show(s) for s in v.shp)}")
    if v is None or isinstance(v, (str, dict, list, tuple)):
        raise Failed(f"number expected, got {type(v).__name__}")
    return G.lift(v)


def eq(v, term):
    return X.eq(ev(v), term)


def N(x):
    return X.app("N", x)


def nd(x):
    return X.ndf(x)


def stub_normals(fo):
    """cut point: the normal cdf is used through its contract (C01)"""
    B = getattr(fo.base, "_Base", None)
    if B is not None and hasattr(B, "_CND"):
        if not hasattr(B, "_vc_real_CND"):
            B._vc_real_CND = B._CND
        B._CND = lambda self, x: lift_map(lambda e: X.app("N", e), x)


def lift_map(f, x):
    from .arrays import SymArray, as_array
    import builtins
    if isinstance(x, SymArray):
        return SymArray.make(x.shp, lambda ix: f(x.get(*ix)))
    if isinstance(x, (Sym, int, float)):
        return Sym(f(G.lift(x)))
    try:
        import numpy
        if isinstance(x, numpy.ndarray):
            a = as_array(x)
            return SymArray.make(a.shp, lambda ix: f(a.get(*ix)))
    except ImportError:
        pass
    raise Unsupported(f"normal cdf of {type(x).__name__}")
