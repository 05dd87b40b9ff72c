"""C11: returned trees against independent backward induction; the drawing's labels against the tree"""
from .lattice import *
import copy as _copy


def layout(cls, tr, n):
    if cls == "TrinomialTreeOption":
        out = np.zeros((2 * n + 1, n + 1))
        for j, v in enumerate(tr):
            out[n - j:n + j + 1, j] = v[::-1]
        return out
    out = np.zeros((n + 1, n + 1))
    for j, v in enumerate(tr):
        out[:j + 1, j] = v[::-1]
    return out


@check
def tree(cls, z, amer, **a):
    tr, mag = induct(cls, z=z, amer=amer, **a)
    want = layout(cls, tr, a["n"])
    o = make(cls, amer, **a)
    f = o.call if z == 1 else o.put
    got = np.asarray(f(tree=True))
    if got.shape != want.shape:
        return f"tree of shape {got.shape}, expected {want.shape}"
    bad = ~(np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-12 * mag + 1e-9)
    if bad.any():
        i, j = map(int, np.argwhere(bad)[0])
        return f"entry [{i}, {j}] is {got[i, j]!r}, expected {want[i, j]!r}"
    p = f()
    root = got[a["n"], 0] if cls == "TrinomialTreeOption" else got[0, 0]
    if not close(float(p), float(root), 1e-12, 1e-12):
        return f"root {root!r} differs from the price {p!r}"


@check(limit=30)
def draw(cls, z, amer, digits=2, **a):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    o = make(cls, amer, **a)
    before = dict(o.__dict__)
    n = a["n"]
    t = np.asarray((o.call if z == 1 else o.put)(tree=True))
    plt.close("all")
    try:
        fig = o.plot(call=z == 1, digits=digits)
        texts = [x for ax in plt.gcf().axes for x in ax.texts]
        seen = {}
        for x in texts:
            xy = getattr(x, "xy", None)
            seen[int(round(float(xy[0]))), int(round(float(xy[1])))] = float(x.get_text())
        title = plt.gcf().axes[0].get_title()
    finally:
        plt.close("all")
    step = 1 if cls == "TrinomialTreeOption" else 2
    want = {(x, y) for x in range(n + 1) for y in range(-x, x + 1, step)}
    if set(seen) != want:
        return f"nodes drawn {sorted(seen)[:6]}..., expected {sorted(want)[:6]}... ({len(seen)} of {len(want)})"
    for (x, y), v in seen.items():
        w = t[n - y, x] if step == 1 else t[(x - y) // 2, x]
        if not abs(v - round(float(w), digits)) <= 1.01 * 10.0 ** -digits * 1e-6 + 1e-12 * abs(w) + (0 if abs(w) < 1e9 else abs(w) * 1e-9):
            if abs(v - w) > 0.51 * 10.0 ** -digits + 1e-9 * abs(w):
                return f"node ({x}, {y}) shows {v!r}, tree holds {w!r}"
    if set(before) != set(o.__dict__) or any(o.__dict__[k] is not before[k] for k in before if not k.startswith("__")):
        return "drawing changed the option"


def sample(g):
    a = args(g)
    cls, z, amer = g.pick(*MODELS), g.pick(1, -1), g.chance(.5)
    yield "tree", dict(a, cls=cls, z=z, amer=amer)
    if g.first or g.chance(.01):
        d = dict(a, cls=cls, z=z, amer=amer, digits=g.pick(2, 3, 0, 5))
        d["n"] = g.rng.randint(1, 7)
        if sane(d, d["n"]):
            yield "draw", d
