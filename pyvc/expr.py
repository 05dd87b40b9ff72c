"""Hash-consed terms over the reals / integers / complex numbers.

Terms are pure mathematics: machine floats of the code under verification are
read as reals (stated in every evidence file).  Nothing in here looks at the
code under verification.
"""
from fractions import Fraction

_table = {}
_count = 0


class E:
    __slots__ = ("op", "args", "id", "sort", "fv", "depth")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


EMPTY = frozenset()


def mk(op, args, sort):
    global _count
    key = (op, args, sort)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.sort = op, args, sort
        _count += 1
        e.id = _count
        if op == "var":
            e.fv = frozenset([e])
            e.depth = 0
        else:
            fv = EMPTY
            d = 0
            for a in args:
                if isinstance(a, E):
                    fv = fv | a.fv if a.fv else fv
                    if a.depth > d:
                        d = a.depth
            if op == "lam":
                fv = fv - {args[0]}
                d += 1
            e.fv = fv
            e.depth = d
        _table[key] = e
    return e


# ---------------------------------------------------------------- constants
def frac_of_float(f):
    """A float literal read as the simplest rational that rounds to it."""
    fr = Fraction(f)
    if fr.denominator == 1:
        return fr
    g = fr.limit_denominator(100000)
    if float(g) == f:
        return g
    return Fraction(repr(f))


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        v = Fraction(v)
    elif isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise ValueError("non finite constant")
        v = frac_of_float(v)
    return mk("const", (v,), "int" if v.denominator == 1 else "real")


ZERO = const(0)
ONE = const(1)
TWO = const(2)
PI = mk("pi", (), "real")
POSFUN = set()          # ghost functions proved positive by the contracts that use them
IMAG = mk("I", (), "complex")
TRUE = mk("true", (), "bool")
FALSE = mk("false", (), "bool")

POSVARS = set()
_fresh = [0]


def var(name, sort="real", pos=False):
    v = mk("var", (name, sort), sort)
    if pos:
        POSVARS.add(v)
    return v


def fresh(prefix, sort="real", pos=False):
    _fresh[0] += 1
    return var(f"{prefix}#{_fresh[0]}", sort, pos)


def is_const(e):
    return e.op == "const"


def cval(e):
    return e.args[0]


def _s(*es):
    s = "int"
    for e in es:
        if e.sort == "complex":
            return "complex"
        if e.sort != "int":
            s = "real"
    return s


def add(*es):
    out = []
    c = Fraction(0)
    for e in es:
        if e.op == "const":
            c += e.args[0]
        elif e.op == "add" and e.sort == "int":
            for a in e.args:
                if a.op == "const":
                    c += a.args[0]
                else:
                    out.append(a)
        else:
            out.append(e)
    if not out:
        return const(c)
    if c != 0:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), _s(*out))


def mul(*es):
    out = []
    c = Fraction(1)
    for e in es:
        if e.op == "const":
            c *= e.args[0]
        elif e.op == "mul" and (e.sort == "int" or len(es) == 2 and es[0].op == "const"):
            for a in e.args:
                if a.op == "const":
                    c *= a.args[0]
                else:
                    out.append(a)
        else:
            out.append(e)
    if c == 0:
        return ZERO
    if not out:
        return const(c)
    if c != 1:
        out.insert(0, const(c))
    if len(out) == 1:
        return out[0]
    return mk("mul", tuple(out), _s(*out))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if is_const(b) and cval(b) != 0:
        return mul(const(1 / cval(b)), a)
    if a is ZERO:
        return ZERO
    s = _s(a, b)
    return mk("div", (a, b), "complex" if s == "complex" else "real")


def pow_(a, b):
    if is_const(b):
        v = cval(b)
        if v == 0:
            return ONE
        if v == 1:
            return a
        if v == Fraction(1, 2):
            return sqrt(a)
        if is_const(a) and v.denominator == 1 and abs(v) < 64 and (cval(a) != 0 or v > 0):
            return const(cval(a) ** int(v))
    if is_const(a) and cval(a) == 1:
        return ONE
    s = _s(a, b)
    if s == "int" and not (is_const(b) and cval(b) >= 0):
        s = "real"
    return mk("pow", (a, b), s)


def sqrt(a):
    if is_const(a):
        v = cval(a)
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    return mk("pow", (a, const(Fraction(1, 2))), "complex" if a.sort == "complex" else "real")


def exp(a):
    if a is ZERO:
        return ONE
    return mk("exp", (a,), "complex" if a.sort == "complex" else "real")


def log(a):
    if a is ONE:
        return ZERO
    return mk("log", (a,), "complex" if a.sort == "complex" else "real")


def pp(a):
    """positive part max(a, 0)"""
    if is_const(a):
        return a if cval(a) > 0 else ZERO
    if a.op == "pp":
        return a
    if a in POSVARS:
        return a
    return mk("pp", (a,), a.sort)


def abs_(a):
    if is_const(a):
        return const(abs(cval(a)))
    if a in POSVARS:
        return a
    return sub(mul(TWO, pp(a)), a)


def sign(a):
    return ite(gt(a, ZERO), ONE, ite(lt(a, ZERO), const(-1), ZERO))


def max_(a, b):
    if a is b:
        return a
    return add(b, pp(sub(a, b)))


def min_(a, b):
    if a is b:
        return a
    return sub(a, pp(sub(a, b)))


def app(fname, *args, sort="real"):
    return mk("app", (fname,) + tuple(args), sort)


def real_part(a):
    if a.sort != "complex":
        return a
    return mk("re", (a,), "real")


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return mk("le", (a.args[1], a.args[0]), "bool")
    if a.op == "le":
        return mk("lt", (a.args[1], a.args[0]), "bool")
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "bool")


def and_(*es):
    out = []
    for e in es:
        if e is FALSE:
            return FALSE
        if e is TRUE:
            continue
        if e.op == "and":
            out.extend(x for x in e.args if x not in out)
        elif e not in out:
            out.append(e)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "bool")


def or_(*es):
    out = []
    for e in es:
        if e is TRUE:
            return TRUE
        if e is FALSE:
            continue
        if e.op == "or":
            out.extend(x for x in e.args if x not in out)
        elif e not in out:
            out.append(e)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "bool")


def implies(a, b):
    return or_(not_(a), b)


def lt(a, b):
    if a is b:
        return FALSE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) < cval(b) else FALSE
    return mk("lt", (a, b), "bool")


def le(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) <= cval(b) else FALSE
    return mk("le", (a, b), "bool")


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "bool":
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) else FALSE
    return mk("eq", (a, b), "bool")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), _s(a, b))


# ---------------------------------------------------------------- binders
def lam(bv, body):
    """Binder with a canonical bound variable (by nesting depth)."""
    can = var(f"β{body.depth}.{bv.sort}{'+' if bv in POSVARS else ''}", bv.sort, bv in POSVARS)
    return mk("lam", (can, subst(body, {bv: can})), body.sort)


def binder(op, bv, body, *rest, sort=None):
    return mk(op, (lam(bv, body),) + rest, sort or ("complex" if body.sort == "complex" else "real"))


def summation(bv, body, n):
    """sum of body for 0 <= bv < n"""
    if is_const(n) and cval(n) <= 12:
        return add(*[subst(body, {bv: const(i)}) for i in range(int(cval(n)))]) if cval(n) > 0 else ZERO
    return binder("sum", bv, body, n)


def rebuild(e, args):
    op = e.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return pow_(*args)
    if op == "exp":
        return exp(*args)
    if op == "log":
        return log(*args)
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "re":
        return real_part(*args)
    if op == "pp":
        return pp(*args)
    if op == "lam":
        return lam(*args)
    return mk(op, tuple(args), e.sort)


def subst(e, m, memo=None):
    """Capture-free: bound variables are canonical names never used elsewhere
    at the same depth, and substituted values are closed w.r.t. them."""
    if memo is None:
        memo = {}
        keys = frozenset(m)
    else:
        keys = memo["keys"]
    memo.setdefault("keys", keys)
    return _subst(e, m, keys, memo)


def _subst(e, m, keys, memo):
    if e in m:
        return m[e]
    if not (e.fv & keys):
        return e
    r = memo.get(e)
    if r is None:
        if e.op == "lam":
            bv, body = e.args
            nb = fresh("bv", bv.sort, bv in POSVARS)
            body2 = subst(body, {bv: nb})
            r = lam(nb, _subst(body2, m, keys, memo))
        else:
            args = [(_subst(a, m, keys, memo) if isinstance(a, E) else a) for a in e.args]
            r = rebuild(e, args)
        memo[e] = r
    return r


def lam_apply(l, x):
    bv, body = l.args
    return subst(body, {bv: x})


# ---------------------------------------------------------------- derivative
CND, NDF = "N", "n"


def ndf(x):
    """standard normal density as an explicit term"""
    return div(exp(mul(const(Fraction(-1, 2)), x, x)), sqrt(mul(TWO, PI)))


class NoDiff(Exception):
    pass


def diff(e, v):
    if v not in e.fv:
        return ZERO
    op = e.op
    a = e.args
    if e is v:
        return ONE
    if op == "add":
        return add(*[diff(x, v) for x in a])
    if op == "mul":
        out = []
        for i, x in enumerate(a):
            d = diff(x, v)
            if d is not ZERO:
                out.append(mul(*(a[:i] + (d,) + a[i + 1:])))
        return add(*out) if out else ZERO
    if op == "div":
        n, d = a
        return sub(div(diff(n, v), d), div(mul(n, diff(d, v)), mul(d, d)))
    if op == "pow":
        b, p = a
        if v not in p.fv:
            return mul(p, pow_(b, sub(p, ONE)), diff(b, v))
        return mul(e, add(mul(diff(p, v), log(b)), div(mul(p, diff(b, v)), b)))
    if op == "exp":
        return mul(e, diff(a[0], v))
    if op == "log":
        return div(diff(a[0], v), a[0])
    if op == "app" and a[0] == CND:
        return mul(ndf(a[1]), diff(a[1], v))
    if op == "app" and a[0] == NDF:
        return mul(neg(a[1]), e, diff(a[1], v))
    if op == "re":
        return real_part(diff(a[0], v))
    if op == "integral":
        l = a[0]
        bv, body = l.args
        nb = fresh("bv", bv.sort, bv in POSVARS)
        for r in a[1:]:
            if isinstance(r, E) and v in r.fv:
                raise NoDiff(show(e))
        return binder("integral", nb, diff(subst(body, {bv: nb}), v), *a[1:])
    raise NoDiff(op)


# ---------------------------------------------------------------- printing
def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    if d > 12:
        return "…"
    op, a = e.op, e.args
    if op == "const":
        return str(a[0])
    if op == "var":
        return a[0]
    if op in ("pi", "I", "true", "false"):
        return op
    f = lambda x: show(x, d + 1)
    if op == "add":
        return "(" + " + ".join(map(f, a)) + ")"
    if op == "mul":
        return "*".join(map(f, a))
    if op == "div":
        return f"({f(a[0])})/({f(a[1])})"
    if op == "pow":
        return f"({f(a[0])})^({f(a[1])})"
    if op in ("lt", "le", "eq"):
        return f"{f(a[0])} {dict(lt='<', le='<=', eq='==')[op]} {f(a[1])}"
    if op == "app":
        return f"{a[0]}({', '.join(map(f, a[1:]))})"
    if op == "lam":
        return f"λ{a[0].args[0]}. {f(a[1])}"
    return f"{op}({', '.join(map(f, a))})"


def subterms(e, seen=None):
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, E):
                st.append(a)
    return seen


def names_in(e, memo={}):
    r = memo.get(e)
    if r is None:
        r = frozenset()
        if e.op == "app":
            r = frozenset([e.args[0]])
        for a in e.args:
            if isinstance(a, E):
                r = r | names_in(a)
        memo[e] = r
    return r
