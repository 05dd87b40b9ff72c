"""Shared terms for the American approximations; the closed-form Black-Scholes price enters through its contract (C03)."""
from .common import *

ba = fo.basic_american_options


def GBS(z, S, K, t, r, b, s):
    return X.app("GBS", C(z), S, K, t, r, b, s)


def stub_gbs():
    """cut point: GBSOption.call/put through their contract"""
    O = getattr(fo.vanillaoptions, "GBSOption", None)
    if O is None:
        return False
    for m, z in (("call", 1), ("put", -1)):
        f = O.__dict__.get(m)
        if f is None:
            continue
        if getattr(f, "_vc", False):
            continue

        def stub(self, *a, _z=z, **kw):
            p = self.get_params()
            return Sym(GBS(_z, *[G.lift(p[q]) for q in ("S", "K", "t", "r", "b", "sigma")]))
        stub._vc = True
        setattr(O, m, stub)
    return True


def gbs_num(z, S, K, t, r, b, s):
    """numeric reading of the cut point, for refutation"""
    import mpmath as mp
    d1 = (mp.log(S / K) + (b + s * s / 2) * t) / (s * mp.sqrt(t))
    d2 = d1 - s * mp.sqrt(t)
    return z * (S * mp.exp((b - r) * t) * mp.ncdf(z * d1) - K * mp.exp(-r * t) * mp.ncdf(z * d2))


def amer_theory(**kw):
    th = theory(**kw)
    th.specnum["GBS"] = gbs_num
    return th
