"""Rigorous enclosure of univariate terms: interval arithmetic over numpy
arrays of cells, every operation widened outward by a relative 2^-50 (libm and
numpy elementary functions are taken to be accurate to 1 ulp, ndtr to 4e-16)."""
import math
import numpy as np
from . import expr as X
from .expr import E

EPS = 2.0 ** -50
TINY = 1e-300


def out(lo, hi):
    lo = np.asarray(lo, float)
    hi = np.asarray(hi, float)
    with np.errstate(all="ignore"):
        return lo - np.abs(lo) * EPS - TINY, hi + np.abs(hi) * EPS + TINY


class Ival:
    def __init__(self, var, lo, hi):
        self.var = var
        self.base = (np.asarray(lo, float), np.asarray(hi, float))
        self.memo = {}

    def __call__(self, e):
        r = self.memo.get(e)
        if r is None:
            with np.errstate(all="ignore"):
                r = self.ev(e)
            self.memo[e] = r
        return r

    def ev(self, e):
        op, a = e.op, e.args
        if op == "var":
            if e is self.var:
                return self.base
            raise ValueError("free variable " + a[0])
        if op == "const":
            f = float(a[0])
            return out(f, f)
        if op == "pi":
            return out(math.pi, math.pi)
        if op == "add":
            lo, hi = self(a[0])
            for x in a[1:]:
                l2, h2 = self(x)
                lo, hi = out(lo + l2, hi + h2)
            return lo, hi
        if op == "mul":
            xs = list(a)
            lo, hi = self(xs[0])
            for x in xs[1:]:
                lo, hi = imul(lo, hi, *self(x))
            return lo, hi
        if op == "div":
            nl, nh = self(a[0])
            dl, dh = self(a[1])
            if not np.all((dl > 0) | (dh < 0)):
                raise ValueError("division by an interval with zero")
            return imul(nl, nh, *out(1 / dh, 1 / dl))
        if op == "pow":
            bl, bh = self(a[0])
            if X.is_const(a[1]):
                q = float(a[1].args[0])
                if q == int(q) and q >= 0:
                    q = int(q)
                    pl, ph = np.power(bl, q), np.power(bh, q)
                    if q % 2 == 0:
                        lo = np.where((bl <= 0) & (bh >= 0), 0.0, np.minimum(pl, ph))
                        return out(lo, np.maximum(pl, ph))
                    return out(pl, ph)
                if np.all(bl > 0):
                    pl, ph = np.power(bl, q), np.power(bh, q)
                    return out(np.minimum(pl, ph), np.maximum(pl, ph))
            raise ValueError("power")
        if op == "exp":
            l, h = self(a[0])
            return out(np.exp(l), np.exp(h))
        if op == "log":
            l, h = self(a[0])
            if not np.all(l > 0):
                raise ValueError("log")
            return out(np.log(l), np.log(h))
        if op == "pp":
            l, h = self(a[0])
            return np.maximum(l, 0), np.maximum(h, 0)
        if op == "ite":
            c = self.truth(a[0])
            if c is None:
                x, y = self(a[1]), self(a[2])
                return np.minimum(x[0], y[0]), np.maximum(x[1], y[1])
            return self(a[1]) if c else self(a[2])
        if op == "app" and a[0] == X.NDF:
            l, h = self(a[1])
            m = np.maximum(np.abs(l), np.abs(h))
            lowabs = np.where((l <= 0) & (h >= 0), 0.0, np.minimum(np.abs(l), np.abs(h)))
            c = 1 / math.sqrt(2 * math.pi)
            lo, hi = out(m * m, m * m)
            l2, h2 = out(lowabs * lowabs, lowabs * lowabs)
            return out(c * np.exp(-hi / 2), c * np.exp(-l2 / 2) * (1 + EPS))
        raise ValueError("no interval rule for " + op)

    def truth(self, c):
        op, a = c.op, c.args
        if op in ("lt", "le"):
            (l1, h1), (l2, h2) = self(a[0]), self(a[1])
            if np.all(h1 < l2):
                return True
            if np.all(l1 > h2):
                return False
        if op == "not":
            t = self.truth(a[0])
            return None if t is None else not t
        return None


def imul(al, ah, bl, bh):
    c = [np.where((al == 0) | (bl == 0), 0.0, al * bl), np.where((al == 0) | (bh == 0), 0.0, al * bh),
         np.where((ah == 0) | (bl == 0), 0.0, ah * bl), np.where((ah == 0) | (bh == 0), 0.0, ah * bh)]
    return out(np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3])),
               np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3])))


def bound_error(term, dterm, var, ref, lo, hi, bound, cells=20000, maxdepth=14):
    """prove |term(x) - ref(x)| <= bound on [lo, hi]; dterm encloses d/dx(term - ref).
    ref(m) must be accurate to 4e-16.  Returns (ok, stats, worst point)."""
    l = np.linspace(lo, hi, cells + 1)
    L, H = l[:-1], l[1:]
    total = 0
    for depth in range(maxdepth):
        m = (L + H) / 2
        total += len(m)
        pl, ph = Ival(var, m, m)(term)
        rv = ref(m)
        e0 = np.maximum(np.abs(pl - rv), np.abs(ph - rv)) + 1e-15
        dl, dh = Ival(var, L, H)(dterm)
        dm = np.maximum(np.abs(dl), np.abs(dh))
        half = np.maximum(H - m, m - L)
        e = e0 + dm * half * (1 + 1e-12)
        bad = ~(e <= bound)
        sure = (np.minimum(np.abs(pl - rv), np.abs(ph - rv)) - 1e-15 > bound) & ~((pl <= rv) & (rv <= ph))
        if sure.any():
            i = int(np.argmax(sure))
            return False, dict(cells=total, depth=depth), float(m[i])
        if not bad.any():
            return True, dict(cells=total, depth=depth), None
        L, H, m = L[bad], H[bad], m[bad]
        L, H = np.concatenate([L, m]), np.concatenate([m, H])
        if len(L) > 4_000_000:
            break
    return False, dict(cells=total, depth=maxdepth), float((L[0] + H[0]) / 2)
