"""All option classes with sampled parameters (runtime side)"""
from .common import *
import finoptions as fo

B, A, P = fo.binomial_tree_options, fo.basic_american_options, fo.spread_options
STD = ["S", "K", "t", "r", "b", "sigma"]
TWO = ["S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2"]
MS = ["Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF"]
TREES = ["CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption"]
TWOS = ["BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption"]
PATH = {"GBSOption": fo, "BlackScholesOption": fo, "Black76Option": fo, "MiltersenSchwartzOption": fo,
        "RollGeskeWhaleyOption": A, "BAWAmericanApproxOption": A, "BSAmericanApproxOption": A, "SpreadApproxOption": P}
PATH.update({q: B for q in TREES})
PATH.update({q: P for q in TWOS})
NAMES = list(PATH)
VECTOR = ["GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"]


def cls_of(name):
    return getattr(PATH[name], name)


def order(name):
    """constructor parameters"""
    return {"Black76Option": ["FT", "K", "t", "r", "sigma"], "MiltersenSchwartzOption": MS,
            "RollGeskeWhaleyOption": ["S", "K", "t", "td", "r", "D", "sigma"], "SpreadApproxOption": TWO}.get(
        name, STD + ["type", "n"] if name in TREES else
        TWO + ["K2", "option", "otype", "n"] if name == "BionomialSpreadAllTypes" else TWO + ["otype", "n"] if name in TWOS else STD)


def params(g, name, mild=True):
    o = g.option(S=(20, 300), K=(20, 300), t=(.1, 2), sigma=(.1, .8), r=(0, .15), b=(-.1, .12)) if mild else g.option()
    if mild:
        o["K"] = min(max(o["K"], .6 * o["S"]), 1.5 * o["S"])
    if name == "Black76Option":
        return dict(FT=o["S"], K=o["K"], t=o["t"], r=o["r"], sigma=o["sigma"])
    if name == "MiltersenSchwartzOption":
        u = g.u
        return dict(Pt=math.exp(-o["r"] * o["t"]), FT=o["S"], K=o["K"], t=o["t"], T=o["t"] + u(.05, 1), sigmaS=u(.1, .5), sigmaE=u(.1, .4),
                    sigmaF=u(.005, .05), rhoSE=u(-.5, .9), rhoSF=u(-.3, .3), rhoEF=u(-.3, .3), KappaE=u(.3, 2), KappaF=u(.1, 1))
    if name == "RollGeskeWhaleyOption":
        return dict(S=o["S"], K=o["K"], t=o["t"], td=o["t"] * g.u(.1, .9), r=max(o["r"], .005), D=o["S"] * g.u(.005, .12), sigma=o["sigma"])
    if name in TWOS or name == "SpreadApproxOption":
        a = dict(S1=o["S"], S2=g.u(20, 200), K=g.u(1, 30) if "Spread" in name else o["K"], t=o["t"], r=o["r"], b1=g.u(-.1, .1), b2=g.u(-.1, .1),
                 sigma1=o["sigma"], sigma2=g.u(.1, .6), rho=g.u(-.8, .9), Q1=g.pick(1, 1.0, g.u(.5, 2)), Q2=g.pick(1, 1.0, g.u(.5, 2)))
        if name in TWOS:
            a.update(otype=g.pick("european", "american"), n=g.pick(1, 2, 3, 4))
        if name == "BionomialSpreadAllTypes":
            a.update(option=g.pick(1, 2, 3, 4, 5, 6, 7), K2=g.u(20, 200))
        return a
    if name in ("BAWAmericanApproxOption", "BSAmericanApproxOption"):
        o["r"] = max(o["r"], .01)
        o["b"] = min(o["b"], .8 * o["r"]) if g.chance(.7) else o["b"]
    if name in TREES:
        o.update(type=g.pick("european", "american"), n=g.pick(1, 2, 3, 5, 7))
    return o


def build(name, a):
    return cls_of(name)(**a)


def value(o, z):
    v = o.call() if z == 1 else o.put()
    return v["OptionPrice"] if isinstance(v, dict) else v


def sides(name):
    return (1,) if name == "RollGeskeWhaleyOption" else (1, -1)


def same(x, y, rel=0.0, ab=0.0):
    """structural equality of results (arrays, dicts, numbers, text); nan equals nan"""
    if isinstance(x, dict) or isinstance(y, dict):
        return isinstance(x, dict) and isinstance(y, dict) and list(x) == list(y) and all(same(x[q], y[q], rel, ab) for q in x)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(p, q, rel, ab) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return type(x) == type(y) and x == y
    try:
        p, q = np.asarray(x), np.asarray(y)
        if p.dtype == object or q.dtype == object:
            return repr(x) == repr(y)
        if p.shape != q.shape:
            return False
        with np.errstate(all="ignore"):
            return bool(np.all((p == q) | ((p != p) & (q != q)) | (np.abs(p - q) <= ab + rel * np.maximum(np.abs(p), np.abs(q)))))
    except Exception:
        return repr(x) == repr(y)


def snapshot(o):
    import copy
    return copy.deepcopy({k: v for k, v in vars(o).items() if k != "_greeks"})
