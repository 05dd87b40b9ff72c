from .lattice import *


def sample(g):
    a = args(g)
    for cls in MODELS:
        yield ("lat", dict(a, cls=cls, z=g.pick(1, -1), amer=False, default=g.chance(.2)))
