"""Specification terms shared by the contract files (pure mathematics)."""
from pyvc import expr as X
from pyvc import engine as G
from pyvc.engine import Sym
from pyvc.kit import *
from pyvc import loader

fo = loader.load()

S, K, t, sigma = pos("S", "K", "t", "sigma")
r, b = real("r", "b")
n = X.var("n", "int", True)


def C(x):
    return X.const(x)


def add(*a):
    return X.add(*[a_ if isinstance(a_, X.E) else X.const(a_) for a_ in a])


def mul(*a):
    return X.mul(*[a_ if isinstance(a_, X.E) else X.const(a_) for a_ in a])


def sub(a, b_):
    return add(a, mul(-1, b_))


def div(a, b_):
    a = a if isinstance(a, X.E) else X.const(a)
    b_ = b_ if isinstance(b_, X.E) else X.const(b_)
    return X.div(a, b_)


def neg(a):
    return X.neg(a)


exp, log, sqrt = X.exp, X.log, X.sqrt


def d12(S, K, t, b, s):
    sq = mul(s, sqrt(t))
    d1 = div(add(log(div(S, K)), mul(add(b, div(mul(s, s), 2)), t)), sq)
    return d1, sub(d1, sq)


def bs(S, K, t, r, b, s, z):
    """generalised Black-Scholes price, z=+1 call, z=-1 put"""
    d1, d2 = d12(S, K, t, b, s)
    return mul(z, sub(mul(S, exp(mul(sub(b, r), t)), N(mul(z, d1))), mul(K, exp(neg(mul(r, t))), N(mul(z, d2)))))


def opt_args(env, *names):
    return {k: env[k] for k in names}


def syms(*es):
    return [Sym(e) for e in es]


stub_normals(fo)
