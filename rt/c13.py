"""C13: two-asset payoffs through one-step prices, and wrapper classes"""
from .c12 import *
from .c12 import sample as _s


@check
def same(cls, z, amer, **a):
    o, w = build(ALL, WRAP[cls], amer, a), build(cls, WRAP[cls], amer, a)
    x, y = (float(q.call() if z == 1 else q.put()) for q in (o, w))
    if not close(x, y, 1e-12, 1e-12):
        return f"{cls} gives {y!r}, general class of type {WRAP[cls]} gives {x!r}"


def sample(g):
    for name, a in _s(g):
        if g.chance(.5):
            a["n"] = g.pick(1, 1, 2)
        yield name, a
    a = args(g)
    cls = g.pick(*WRAP)
    yield "two", dict(a, cls=cls, option=WRAP[cls], z=g.pick(1, -1), amer=g.chance(.5), style=g.chance(.5))
    yield "same", dict(a, cls=cls, z=g.pick(1, -1), amer=g.chance(.5))
