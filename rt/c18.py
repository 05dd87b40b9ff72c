"""C18: round trip of parameters, set_param against fresh construction, copies"""
from .classes import *


def shown(name, a):
    return dict(a, b=0) if name == "Black76Option" else a


def outputs(o, name, greek):
    out = {}
    for z in sides(name):
        out[z] = value(o, z)
    if greek:
        out["delta"] = o.delta()
    return out


def probe(what, x, y, name, greek):
    p, q = outputs(x, name, greek), outputs(y, name, greek)
    if not same(p, q, 1e-13, 0):
        return f"{what}: {p!r} against {q!r}"


def reads(o, name, a):
    got = o.get_params()
    want = shown(name, a)
    if set(got) != set(want) or any(got[q] != want[q] for q in want):
        return f"get_params() = {got!r}, given {want!r}"


def fresh_value(name, q, a, g=None):
    v = a[q]
    if isinstance(v, str):
        return {"european": "american", "american": "european"}[v]
    if q == "option":
        return 3 if v != 3 else 2
    if q == "n":
        return v + 1
    if q.startswith("rho"):
        return v * .5 + .1
    return v * 1.07 + (.004 if q in ("r", "b", "b1", "b2") else 0)


@check
def change(cls, wrt, greek=False, use=False, **a):
    if wrt not in a:
        raise Skip
    v = fresh_value(cls, wrt, a)
    a2 = dict(a, **{wrt: v})
    o = build(cls, a)
    bad = reads(o, cls, a)
    if bad:
        return bad
    if use:
        outputs(o, cls, greek)
    p = o.copy()
    o.set_param(wrt, v)
    f0, f1 = build(cls, a), build(cls, a2)
    return first(reads(o, cls, a2), probe(f"after set_param({wrt!r}) and freshly built", o, f1, cls, greek),
                 probe("copy made before the change and freshly built", p, f0, cls, greek), reads(p, cls, a),
                 second(cls, wrt, v, a, a2, greek))


def second(cls, wrt, v, a, a2, greek):
    o = build(cls, a)
    p = o.copy()
    p.set_param(wrt, v)
    r = first(probe("original after its copy changed", o, build(cls, a), cls, greek), probe("changed copy", p, build(cls, a2), cls, greek), reads(o, cls, a))
    p.set_param(wrt, a[wrt])
    return r or probe("changed back", p, build(cls, a), cls, greek)


@check
def copies(cls, **a):
    o = build(cls, a)
    p = o.copy()
    return first(reads(o, cls, a), reads(p, cls, a), probe("copy", p, o, cls, False), None if type(p) is type(o) and p is not o else "copy() is not another object of the class")


@check
def history(cls, steps, **a):
    """a sequence of changes ends where a fresh object starts"""
    o = build(cls, a)
    cur = dict(a)
    for q in steps:
        cur[q] = fresh_value(cls, q, cur)
        o.set_param(q, cur[q])
        if q in steps[:2]:
            outputs(o, cls, False)
    return first(reads(o, cls, cur), probe("after a sequence of changes", o, build(cls, cur), cls, False))


ALWAYS = [["change", {"D": 0.0740940988552382, "K": 1.3138552978026876, "S": 1.4039332573429832, "cls": "RollGeskeWhaleyOption", "greek": True, "r": 0.06485201946629027,
                      "sigma": 0.23148887919844924, "t": 0.015580671646379628, "td": 0.001775782204594864, "use": False, "wrt": "S"}]]


def sample(g):
    name = g.pick(*NAMES)
    a = params(g, name, mild=g.chance(.7))
    yield "change", dict(a, cls=name, wrt=g.pick(*order(name)), greek=g.chance(.1), use=g.chance(.5))
    yield "history", dict(a, cls=name, steps=[g.pick(*order(name)) for _ in range(g.pick(2, 3, 4))])
