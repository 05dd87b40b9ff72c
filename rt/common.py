"""Runtime side: independent oracles on the real code (used only to find and
replay failing inputs; /opt/venv, no symbolic engine)."""
import ast
import math
import os
import random
import numpy as np
from scipy.special import ndtr

SRC = os.environ.get("FINOPT_SRC", "/repo/src")
CHECKS = {}


def check(fn=None, limit=20.0, must_return=False):
    def deco(f):
        f.limit = limit
        f.must_return = must_return
        CHECKS[f.__name__] = f
        return f
    return deco(fn) if fn else deco


def literals():
    """numbers that occur in the source of the library"""
    out = set()
    for d, _, fs in os.walk(os.path.join(SRC, "finoptions")):
        for f in fs:
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except (SyntaxError, OSError):
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        out.add(float(n.value))
    return sorted(out)


class Gen:
    """seeded samples over the standard domain, with the special cases users hit"""
    R = dict(S=(1, 500), K=(1, 500), t=(0.01, 5), sigma=(0.03, 1.5), r=(-0.1, 0.3), b=(-0.2, 0.3))

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.lits = literals()

    def u(self, lo, hi):
        return self.rng.uniform(lo, hi)

    def pick(self, *a):
        return self.rng.choice(a)

    def chance(self, p):
        return self.rng.random() < p

    def lit(self, lo, hi):
        """a literal of the source, or its neighbourhood, inside the range (or None)"""
        c = [x for x in self.lits if lo <= x <= hi]
        if not c:
            return None
        x = self.rng.choice(c)
        k = self.rng.random()
        if k < 0.4:
            x = x * self.pick(1.0001, 0.9999, 1.01, 0.99, 1.1, 0.9)
        return x if lo <= x <= hi else None

    def v(self, lo, hi, log=False):
        if self.chance(0.12):
            x = self.lit(lo, hi)
            if x is not None:
                return float(x)
        if self.chance(0.06):
            return float(self.pick(lo, hi))
        if log and lo > 0 and self.chance(0.5):
            return math.exp(self.u(math.log(lo), math.log(hi)))
        x = self.u(lo, hi)
        if self.chance(0.2):
            x = round(x, self.pick(0, 1, 2))
            x = min(max(x, lo), hi)
        return x

    def par(self, name, lo=None, hi=None):
        a, b = self.R[name]
        return self.v(a if lo is None else lo, b if hi is None else hi, log=name in ("S", "K", "t", "sigma"))

    def option(self, **rng):
        """S,K,t,r,b,sigma"""
        def p(n):
            return self.par(n, *rng.get(n, (None, None)))
        S = p("S")
        if self.chance(0.6):
            K = S * math.exp(self.u(-0.5, 0.5))
            lo, hi = rng.get("K", self.R["K"])
            K = min(max(K, lo), hi)
        else:
            K = p("K")
        if self.chance(0.05):
            K = S
        r = p("r")
        b = p("b")
        k = self.rng.random()
        if k < 0.12:
            b = r if "b" not in rng or rng["b"][0] <= r <= rng["b"][1] else b
        elif k < 0.24 and ("b" not in rng or rng["b"][0] <= 0 <= rng["b"][1]):
            b = 0.0
        if self.chance(0.04) and ("r" not in rng or rng["r"][0] <= 0):
            r = 0.0
        return dict(S=S, K=K, t=p("t"), r=r, b=b, sigma=p("sigma"))


def close(a, b, rel=1e-9, ab=1e-9):
    a, b = complex(a), complex(b)
    if a != a or b != b or math.isinf(abs(a)) or math.isinf(abs(b)):
        return (a != a and b != b) or a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def finite(x):
    return math.isfinite(float(x))


def npdf(x):
    return math.exp(-x * x / 2) / math.sqrt(2 * math.pi)


def ncdf(x):
    return float(ndtr(x))


def gbs(S, K, t, r, b, sigma, z, N=ncdf):
    sq = sigma * math.sqrt(t)
    d1 = (math.log(S / K) + (b + sigma * sigma / 2) * t) / sq
    d2 = d1 - sq
    return z * (S * math.exp((b - r) * t) * N(z * d1) - K * math.exp(-r * t) * N(z * d2))


def differs(what, got, want, rel=1e-9, ab=1e-9):
    if not close(got, want, rel, ab):
        return f"{what}: got {got!r}, expected {want!r}"
    return None


def first(*msgs):
    for m in msgs:
        if m:
            return m
    return None


class Skip(Exception):
    """the case is outside the stated domain"""
