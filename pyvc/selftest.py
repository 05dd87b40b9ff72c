"""Self-test of the verifier: right bodies must be accepted, wrong ones must not.

Every case is a small function, transformed by the same loader as the library.
"""
import sys
import ast
from . import loader, kit, expr as X, engine as G
from .kit import Kit, theory, pos, real, eq, Sym, nd
from .loops import ArrayCand


def body(src):
    loader.install()
    tree = loader.Transform("selftest.py").visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    if loader.BUILTINS is None:
        loader.BUILTINS = loader.make_builtins()
    ns = {"__builtins__": loader.BUILTINS, "__name__": "selftest"}
    exec(compile(tree, "finoptions_selftest.py", "exec"), ns)
    return ns


x, y = real("x", "y")
S, K, t, sigma = pos("S", "K", "t", "sigma")
n = X.var("n", "int", True)


def geo(op):
    """sum of powers by a loop: sum_{i<n} x^i (x-1) = x^n - 1"""
    return body(f"def f(x, n):\n    s = 0\n    p = 1\n    for i in range(n):\n        s = s + p\n        p = p {op} x\n    return s * (x - 1)\n")["f"]


def lattice(cont):
    return body(f"""
import numpy as np
def f(S, K, u, p, n):
    a = np.zeros(n + 1)
    for j in range(n + 1):
        a[j] = S + u * j
    a = np.maximum(a - K, 0)
    for i in range(n):
        m = n - i
        a = {cont}
    return a[0]
""")["f"]


def run_lattice(cont):
    u, p = real("u", "p")
    th = theory()
    th.unfolds["V"] = lambda j, k: X.ite(X.eq(j, n), X.pp(X.sub(X.add(S, X.mul(u, k)), K)),
                                         X.add(X.mul(p, X.app("V", X.add(j, X.ONE), X.add(k, X.ONE))),
                                               X.mul(X.sub(X.ONE, p), X.app("V", X.add(j, X.ONE), k))))

    def tmpl(kind, ent, N, en):
        if kind != "array" or N is None or len(ent.shp) != 1:
            return
        for shape in (lambda c: ent.shp, lambda c: (X.sub(X.add(n, X.ONE), c),)):
            yield ArrayCand(shape, lambda c, ix: X.le(ix[0], X.sub(n, c)), lambda c, ix: X.app("V", X.sub(n, c), ix[0]), "V")
    f = lattice(cont)
    k = Kit("lattice")
    k.verify(lambda: f(Sym(S), Sym(K), Sym(u), Sym(p), Sym(n)), lambda q: [("V", eq(q.value, X.app("V", X.ZERO, X.ZERO)))], th,
             hyps=[X.le(X.ONE, n)], templates=[tmpl])
    return k


def simple(src, args, post, hyps=(), raises=None):
    f = body(src)["f"]
    k = Kit("simple")
    k.verify(lambda: f(*[Sym(a) for a in args]), post, theory(x=(-3, 3), y=(-3, 3)), hyps=hyps, raises=raises)
    return k


CASES = [
    ("square", True, lambda: simple("def f(x):\n    return (x + 1) ** 2\n", [x], lambda q: [("p", eq(q.value, X.add(X.mul(x, x), X.mul(X.TWO, x), X.ONE)))])),
    ("square wrong", False, lambda: simple("def f(x):\n    return (x + 1) ** 2\n", [x], lambda q: [("p", eq(q.value, X.add(X.mul(x, x), x, X.ONE)))])),
    ("branch", True, lambda: simple("def f(x):\n    if x < 0:\n        return -x\n    return x\n", [x], lambda q: [("p", eq(q.value, X.abs_(x)))])),
    ("branch wrong", False, lambda: simple("def f(x):\n    if x < 1:\n        return -x\n    return x\n", [x], lambda q: [("p", eq(q.value, X.abs_(x)))])),
    ("boundary wrong", False, lambda: simple("def f(x):\n    if x == 2:\n        return 5\n    return x\n", [x], lambda q: [("p", eq(q.value, x))])),
    ("raise", False, lambda: simple("def f(x):\n    if x == 2:\n        raise ValueError('no')\n    return x\n", [x], lambda q: [("p", eq(q.value, x))])),
    ("transcendental", True, lambda: simple("import numpy as np\ndef f(S, K):\n    return np.exp(np.log(S) - np.log(K)) * K\n", [S, K], lambda q: [("p", eq(q.value, S))])),
    ("mod while", True, lambda: simple("def f(x):\n    i = 0\n    while i < 4:\n        x = x + 1\n        i += 1\n    return x\n", [x], lambda q: [("p", eq(q.value, X.add(x, X.const(4))))])),
    ("lattice", True, lambda: run_lattice("p * a[1:m + 1] + (1 - p) * a[:m]")),
    ("lattice swapped", False, lambda: run_lattice("p * a[:m] + (1 - p) * a[1:m + 1]")),
    ("lattice inplace wrong", False, lambda: run_lattice("np.maximum(p * a[1:m + 1] + (1 - p) * a[:m], 0)")),
]


def main():
    bad = 0
    for name, want, fn in CASES:
        k = fn()
        ok = bool(k.obls) and all(o["status"] == "proved" for o in k.obls)
        if ok != want:
            bad += 1
            print(f"self-test {name}: accepted={ok}, expected {want}", k.obls)
    print(f"self-test: {len(CASES) - bad}/{len(CASES)}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
