"""Numeric evaluation of terms (mpmath) at a concrete environment."""
from fractions import Fraction
import mpmath as mp
from . import expr as X
from .expr import E
from .norm import hash_str

mp.mp.dps = 34


class NoEval(Exception):
    pass


class NumEval:
    """env: {var: number}; specs: {fname: python callable(*numbers)}"""

    def __init__(self, env, specs=None, default=None, unf=None, root=None, umemo=None):
        self.env = env
        self.specs = specs or {}
        self.memo = {}
        self.default = default
        self.unf = unf or {}
        self.root = env if root is None else root
        self.umemo = {} if umemo is None else umemo      # values of defined functions at constants
        self.depth = 0

    def __call__(self, e):
        r = self.memo.get(e)
        if r is None:
            try:
                r = self.ev(e)
            except (ZeroDivisionError, OverflowError, ValueError, TypeError) as ex:
                raise NoEval(str(ex))
            if isinstance(r, (mp.mpf, mp.mpc)) and not mp.isfinite(r):
                raise NoEval("non finite")
            self.memo[e] = r
        return r

    def ev(self, e):
        op, a = e.op, e.args
        if op == "const":
            f = a[0]
            return int(f) if f.denominator == 1 else mp.mpf(f.numerator) / f.denominator
        if op == "var":
            if e in self.env:
                return self.env[e]
            if self.default:
                v = self.root.get(e)
                if v is None:
                    v = self.default(e)
                if v is not None:
                    self.root[e] = v
                    self.env[e] = v
                    return v
            raise NoEval("free " + a[0])
        if op == "pi":
            return mp.pi
        if op == "I":
            return mp.mpc(0, 1)
        if op == "true":
            return True
        if op == "false":
            return False
        f = self
        if op == "add":
            r = 0
            for x in a:
                r = r + f(x)
            return r
        if op == "mul":
            r = 1
            for x in a:
                r = r * f(x)
            return r
        if op == "div":
            n, d = f(a[0]), f(a[1])
            if d == 0:
                raise NoEval("div0")
            return mp.mpmathify(n) / d
        if op == "pow":
            b, q = f(a[0]), f(a[1])
            if isinstance(q, int) and isinstance(b, int) and q >= 0:
                return b ** q if q < 2000 else mp.mpf(b) ** q
            if not isinstance(q, int) and not isinstance(b, mp.mpc) and b < 0:
                if q != int(q):
                    raise NoEval("neg pow")
            if b == 0 and (isinstance(q, mp.mpc) or q < 0):
                raise NoEval("0^neg")
            return mp.mpmathify(b) ** q
        if op == "exp":
            return mp.exp(f(a[0]))
        if op == "log":
            v = f(a[0])
            if v == 0 or (not isinstance(v, mp.mpc) and v < 0):
                raise NoEval("log")
            return mp.log(v)
        if op == "pp":
            v = f(a[0])
            return v if v > 0 else 0 * v
        if op == "re":
            return mp.mpmathify(f(a[0])).real
        if op == "ite":
            return f(a[1]) if f(a[0]) else f(a[2])
        if op == "lt":
            return bool(f(a[0]) < f(a[1]))
        if op == "le":
            return bool(f(a[0]) <= f(a[1]))
        if op == "eq":
            x, y = f(a[0]), f(a[1])
            if isinstance(x, int) and isinstance(y, int):
                return x == y
            return bool(abs(x - y) <= mp.mpf(10) ** -28 * (1 + abs(x)))
        if op == "and":
            return all(f(x) for x in a)
        if op == "or":
            return any(f(x) for x in a)
        if op == "not":
            return not f(a[0])
        if op == "app":
            name = a[0]
            if name == X.CND:
                return mp.ncdf(f(a[1]))
            if name == X.NDF:
                return mp.npdf(f(a[1]))
            vals = [f(x) for x in a[1:]]
            if name in self.specs:
                return self.specs[name](*vals)
            if name in self.unf and any(isinstance(v, int) for v in vals) and not any(isinstance(v, mp.mpc) for v in vals):
                return self.defined(name, [v if isinstance(v, int) else exact(v) for v in vals])
            return uf(name, vals, e.sort)
        if op == "sum":
            bv, body = a[0].args
            n = f(a[1])
            n = int(n)
            if n > 400:
                raise NoEval("long sum")
            r = 0
            for i in range(n):
                r = r + self.at(body, bv, i)
            return r
        if op == "forall":
            def every(e, ns):
                if not ns:
                    return bool(f(e))
                return all(every(X.lam_apply(e, X.const(q)), ns[1:]) for q in range(int(f(ns[0]))))
            return every(a[0], a[1:])
        if op == "deriv":
            bv, body = a[0].args
            n = int(f(a[1]))
            x = f(a[2])
            return mp.diff(lambda v: self.at(body, bv, v), x, n)
        if op == "integral":
            bv, body = a[0].args
            return uf("integral", [self.at(body, bv, mp.mpf("0.731")), self.at(body, bv, mp.mpf("1.917"))]
                      + [f(x) for x in a[1:]], e.sort)
        raise NoEval(op)

    def at(self, body, bv, v):
        sub = NumEval({**self.env, bv: v}, self.specs, self.default, self.unf, self.root, self.umemo)
        sub.depth = self.depth
        return sub(body)

    def defined(self, name, vals):
        k = (name,) + tuple(vals)
        r = self.umemo.get(k)
        if r is None:
            if len(self.umemo) > 3000 or self.depth > 60:
                raise NoEval("recursion")
            e = self.unf[name](*[X.const(v) for v in vals])
            if e is None or (e.op == "app" and e.args[0] == name and all(X.is_const(x) and X.cval(x) == v for x, v in zip(e.args[1:], vals))):
                return uf(name, vals, "real")
            sub = NumEval(self.root, self.specs, self.default, self.unf, self.root, self.umemo)
            sub.depth = self.depth + 1
            r = sub(e)
            self.umemo[k] = r
        return r


def exact(v):
    s, m, e, _ = mp.mpf(v)._mpf_
    return Fraction(-int(m) if s else int(m)) * Fraction(2) ** int(e)


def uf(name, vals, sort):
    """an arbitrary but fixed smooth interpretation of an uninterpreted symbol"""
    h = hash_str(name)
    if sort == "bool":
        t = 0
        for v in vals:
            t = t + mp.mpmathify(v).real * 7
        return bool(int(mp.floor(t)) % 2)
    t = mp.mpf(h % 1000) / 500
    for i, v in enumerate(vals):
        if isinstance(v, bool):
            v = int(v)
        v = mp.mpmathify(v)
        v = v.real + mp.mpf("0.7") * v.imag
        t += v * (mp.mpf("0.37") + mp.mpf((h >> (3 * i + 5)) % 97) / 97)
    r = mp.mpf("1.3") + mp.sin(t) / 2
    if sort == "int":
        return int(mp.floor(r * 3))
    return r
