"""Contracts of the external libraries, on symbolic values.

numpy elementwise functions are the mathematical functions; every other entry
states what the library is assumed to do (listed in the evidence as trusted).
"""
import math as _m
import sys
import itertools
import types
import warnings
from fractions import Fraction
from . import expr as X
from . import engine as G
from .engine import Sym, SymBool, Unsupported, lift, mkbool, NUM, PathEnd
from . import arrays as A
from .arrays import SymArray, SymRange, Store, as_array, cint, pyint
from . import loader as LD
from . import loops as L

ASSUMED = set()


def assumed(s):
    ASSUMED.add(s)


def el(f, x):
    if isinstance(x, (SymArray, list, tuple, SymRange)):
        return A.ew1(f, as_array(x))
    if isinstance(x, (Sym, SymBool) + NUM):
        return A.wrap(f(lift(x)))
    if isinstance(x, L.SymList):
        return A.ew1(f, from_symlist(x))
    raise TypeError(f"bad operand {type(x).__name__}")


def el2(f, x, y):
    if isinstance(x, L.SymList):
        x = from_symlist(x)
    if isinstance(y, L.SymList):
        y = from_symlist(y)
    if isinstance(x, (SymArray, list, tuple, SymRange)) or isinstance(y, (SymArray, list, tuple, SymRange)):
        r = A.ew2(f, x, y)
        if r is NotImplemented:
            raise TypeError("bad operand")
        return r
    if x is None or y is None:
        raise TypeError("unsupported operand type(s) for NoneType")
    return A.wrap(f(lift(x), lift(y)))


def from_symlist(s):
    v = s.item(X.fresh("probe", "int"))
    if isinstance(v, SymArray):
        sh = v.shp
        return SymArray.make((s.n,) + tuple(sh), lambda ix: as_array(s.item(ix[0])).get(*ix[1:]))
    return SymArray.make((s.n,), lambda ix: lift(s.item(ix[0])))


def e_log(a):
    G.ENG.defined("log", X.lt(X.ZERO, a) if a.sort != "complex" else X.TRUE)
    return X.log(a)


def e_sqrt(a):
    if a.sort != "complex":
        G.ENG.defined("sqrt", X.le(X.ZERO, a))
    return X.sqrt(a)


def e_exp(a):
    if a.op == "mul" and len(a.args) == 2 and a.args[1] is G.INF and X.is_const(a.args[0]) and X.cval(a.args[0]) < 0:
        return X.ZERO
    return X.exp(a)


np = types.ModuleType("numpy")


def reg(name):
    def d(f):
        setattr(np, name, f)
        return f
    return d


for _n, _f in dict(exp=e_exp, log=e_log, sqrt=e_sqrt, sign=X.sign, real=X.real_part,
                   square=lambda a: X.mul(a, a), negative=X.neg,
                   log1p=lambda a: e_log(X.add(X.ONE, a)), expm1=lambda a: X.sub(X.exp(a), X.ONE),
                   arctan=lambda a: at(a), sin=lambda a: X.app("sin", a), cos=lambda a: X.app("cos", a),
                   tanh=lambda a: X.app("tanh", a)).items():
    setattr(np, _n, (lambda f: (lambda x, *a, **k: el(f, x)))(_f))
np.abs = np.absolute = np.fabs = lambda x: el(X.abs_, x)
np.log2 = lambda x: el(lambda a: X.div(X.log(a), X.log(X.TWO)), x)
for _n, _f in dict(maximum=X.max_, minimum=X.min_, power=X.pow_, float_power=X.pow_, multiply=X.mul, add=X.add,
                   subtract=X.sub, divide=G.div_, true_divide=G.div_, greater=X.gt, less=X.lt,
                   greater_equal=X.ge, less_equal=X.le, equal=X.eq,
                   not_equal=lambda a, b: X.not_(X.eq(a, b)),
                   fmax=X.max_, fmin=X.min_).items():
    setattr(np, _n, (lambda f: (lambda x, y, *a, **k: el2(f, x, y)))(_f))


def tb(a):
    return a if a.sort == "bool" else X.not_(X.eq(a, X.ZERO))


def elb(f, x):
    if isinstance(x, (SymArray, list, tuple)):
        return A.ew1(f, as_array(x))
    return mkbool(f(liftbool(x)))


def liftbool(x):
    return x.e if isinstance(x, (SymBool,)) else (X.TRUE if x else X.FALSE) if isinstance(x, bool) else tb(lift(x))


np.logical_not = lambda x: elb(lambda a: X.not_(tb(a)), x)


def logic2(f):
    def g(x, y, *a, **k):
        if isinstance(x, SymArray) or isinstance(y, SymArray):
            return A.ew2(lambda a, b: f(tb(a), tb(b)), x, y)
        return mkbool(f(liftbool(x), liftbool(y)))
    return g


np.logical_and = logic2(X.and_)
np.logical_or = logic2(X.or_)
np.pi = Sym(X.PI)
np.e = Sym(X.exp(X.ONE))
np.inf = np.Inf = float("inf")
np.nan = np.NaN = float("nan")
np.newaxis = None
np.ndarray = SymArray
np.float64 = np.float32 = np.double = np.floating = LD.b_float
np.int64 = np.int32 = np.integer = np.int_ = LD.b_int
np.bool_ = bool
np.complex128 = complex
np.number = (float, int)


class finfo:
    def __init__(self, *a):
        self.eps = sys.float_info.epsilon
        self.tiny = sys.float_info.min
        self.max = sys.float_info.max


np.finfo = finfo


def at(a):
    """arctangent; only at 1 is it needed symbolically"""
    if a is X.ONE:
        return X.div(X.PI, X.const(4))
    return X.app("atan", a)


@reg("isfinite")
def isfinite(x):
    assumed("np.isfinite: uninterpreted predicate; true for every real term outside the infinite case split")
    return elb(lambda a: X.app("isfinite", a, sort="bool"), x) if isinstance(x, SymArray) \
        else mkbool(X.app("isfinite", lift(x), sort="bool"))


@reg("isnan")
def isnan(x):
    return A.ew1(lambda a: X.app("isnan", a, sort="bool"), x) if isinstance(x, SymArray) \
        else mkbool(X.FALSE if not isinstance(x, float) else (X.TRUE if x != x else X.FALSE))


@reg("isinf")
def isinf(x):
    f = lambda a: X.not_(X.app("isfinite", a, sort="bool"))
    return A.ew1(f, x) if isinstance(x, SymArray) else mkbool(f(lift(x)))


np.isscalar = lambda x: isinstance(x, (Sym, SymBool) + NUM)
np.isclose = lambda a, b, **k: (_ for _ in ()).throw(Unsupported("isclose"))
np.allclose = np.isclose


def shp(s):
    if isinstance(s, (int, Sym)):
        s = (s,)
    if isinstance(s, SymArray):
        s = list(s)
    out = []
    for x in s:
        e = lift(x)
        if e.sort != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        c = cint(e)
        out.append(X.const(c) if c is not None else A.simp_int(e))
    return tuple(out)


def dt(dtype):
    if dtype is None or dtype is LD.b_float or dtype in (float, "float", "float64"):
        return False
    if dtype is complex:
        return False
    raise Unsupported("dtype")


def fillv(s, e, dtype=None):
    dt(dtype)
    return SymArray.make(shp(s), lambda ix: e)


np.zeros = lambda s, dtype=None, **k: fillv(s, X.ZERO, dtype)
np.ones = lambda s, dtype=None, **k: fillv(s, X.ONE, dtype)


@reg("full")
def full(s, v, dtype=None):
    e = lift(v)
    return fillv(s, e, dtype)


@reg("empty")
def empty(s, dtype=None):
    dt(dtype)
    n = G.ENG.newseq()
    return SymArray.make(shp(s), lambda ix: X.app(f"empty@{n}", *ix))


def likeint(a):
    if isinstance(a, SymArray) and a.store.intd:
        return True
    return False


def like(a, e, dtype=None):
    a = as_array(a)
    return SymArray.make(a.shp, lambda ix: e, intd=dtype is None and likeint(a))


np.zeros_like = lambda a, dtype=None: like(a, X.ZERO, dtype)
np.ones_like = lambda a, dtype=None: like(a, X.ONE, dtype)
np.full_like = lambda a, v, dtype=None: like(a, lift(v), dtype)


@reg("empty_like")
def empty_like(a, dtype=None):
    return empty(as_array(a).shape)


@reg("eye")
def eye(n):
    return SymArray.make(shp((n, n)), lambda ix: X.ite(A.G_eq(ix[0], ix[1]), X.ONE, X.ZERO))


@reg("array")
def array(o, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(o, L.SymList):
        r = from_symlist(o)
    elif isinstance(o, SymArray):
        r = o.copy()
    else:
        r = as_array(o)
    if dtype is not None:
        if dtype in (bool, "bool"):
            raise Unsupported("dtype bool")
        if not dt(dtype):
            r = SymArray.make(r.shp, r.reader())
    while r.ndim < ndmin:
        r = r[None]
    return r


@reg("asarray")
def asarray(o, dtype=None, **k):
    if isinstance(o, SymArray) and not (o.store.intd and dtype is not None):
        return o
    return array(o, dtype)


np.asanyarray = np.ascontiguousarray = asarray


@reg("copy")
def copy(a, **k):
    return as_array(a).copy()


@reg("atleast_1d")
def atleast_1d(a):
    a = as_array(a) if not isinstance(a, SymArray) else a
    return a.reshape(1) if a.ndim == 0 else a


@reg("arange")
def arange(*a, dtype=None):
    st = 1
    if len(a) == 1:
        lo, hi = X.ZERO, lift(a[0])
    else:
        lo, hi = lift(a[0]), lift(a[1])
        if len(a) == 3:
            st = cint(lift(a[2]))
            if st is None or st == 0:
                raise Unsupported("arange step")
    if lo.sort != "int" or hi.sort != "int":
        raise Unsupported("real arange")
    n = A.range_len(lo, hi, st)
    return SymArray.make((n,), lambda ix: X.add(lo, X.mul(X.const(st), ix[0])),
                         intd=not (dtype is not None and not dt(dtype)))


@reg("linspace")
def linspace(a, b, n=50, endpoint=True):
    a, b, m = lift(a), lift(b), lift(n)
    d = X.sub(m, X.ONE) if endpoint else m
    return SymArray.make(shp((n,)), lambda ix: X.add(a, X.div(X.mul(ix[0], X.sub(b, a)), d)))


@reg("append")
def append(a, v, axis=None):
    if axis is None:
        return A.concat([A.flat(as_array(a)), A.flat(as_array(v))])
    return A.concat([as_array(a), as_array(v)], axis)


@reg("concatenate")
def concatenate(xs, axis=0):
    if isinstance(xs, SymArray):
        xs = list(xs)
    xs = [as_array(x) for x in xs]
    if axis is None:
        return A.concat([A.flat(x) for x in xs])
    return A.concat(xs, axis)


np.hstack = lambda xs: A.concat([atleast_1d(as_array(x)) for x in xs], 0 if as_array(xs[0]).ndim <= 1 else 1)


@reg("vstack")
def vstack(xs):
    xs = [as_array(x) for x in xs]
    return A.concat([x if x.ndim > 1 else x[None] for x in xs], 0)


np.stack = lambda xs, axis=0: A.stack(list(xs)) if axis == 0 else (_ for _ in ()).throw(Unsupported("stack axis"))
np.reshape = lambda a, s, **k: A.reshape(as_array(a), s)
np.ravel = lambda a: A.flat(as_array(a))


@reg("repeat")
def repeat(a, n, axis=None):
    a = as_array(a)
    if all(cint(s) == 1 for s in a.shp):
        e = a.get(*[X.ZERO] * a.ndim)
        return SymArray.make(shp((n,)), lambda ix: e)
    raise Unsupported("repeat of an array")


@reg("tile")
def tile(a, n):
    a = as_array(a)
    if all(cint(s) == 1 for s in a.shp):
        return repeat(a, n)
    raise Unsupported("tile")


@reg("flip")
def flip(a, axis=None):
    a = as_array(a)
    ax = range(a.ndim) if axis is None else [axis % a.ndim]
    return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))]


np.flipud = lambda a: flip(a, 0)
np.fliplr = lambda a: flip(a, 1)
np.transpose = lambda a, axes=None: as_array(a).transpose(*([axes] if axes is not None else []))


@reg("broadcast_to")
def broadcast_to(a, s):
    s = shp(s)
    return SymArray.make(s, A.broadcast(as_array(a), s))


@reg("outer")
def outer(a, b):
    a, b = as_array(a), as_array(b)
    ra, rb = a.reader(), b.reader()
    return SymArray.make((a.shp[0], b.shp[0]), lambda ix: X.mul(ra((ix[0],)), rb((ix[1],))))


@reg("dot")
def dot(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        a, b = as_array(a), as_array(b)
        if a.ndim == 1 and b.ndim == 1:
            return A.reduce_sum(a * b, None)
        raise Unsupported("dot")
    return a * b


@reg("where")
def where(c, *ab):
    if not ab:
        c = as_array(c)
        if not c.concrete():
            raise Unsupported("where with one argument")
        hits = []
        for ix in itertools.product(*[range(A.cint(d)) for d in c.shp]):
            q = liftbool(A.wrap(c.get(*[X.const(i) for i in ix])))
            if q.op not in ("true", "false"):
                q = X.TRUE if G.ENG.branch(q) else X.FALSE
            if q is X.TRUE:
                hits.append(ix)
        return tuple(as_array([h[k] for h in hits]) for k in range(c.ndim))
    a, b = ab
    if not isinstance(c, SymArray) and not isinstance(a, SymArray) and not isinstance(b, SymArray):
        return A.wrap(X.ite(liftbool(c), lift(a), lift(b)))
    c, a, b = as_array(c), as_array(a), as_array(b)
    sh = A.bshape(c.shp, a.shp, b.shp)
    rc, ra, rb = A.broadcast(c, sh), A.broadcast(a, sh), A.broadcast(b, sh)
    return SymArray.make(sh, lambda ix: X.ite(tb(rc(ix)), ra(ix), rb(ix)))


def red(f):
    def g(a, axis=None, **k):
        if isinstance(a, L.SymList):
            a = from_symlist(a)
        k.pop("dtype", None)
        if k.pop("keepdims", False):
            raise Unsupported("keepdims")
        return f(as_array(a), axis, **k)
    return g


np.sum = red(A.reduce_sum)
np.mean = np.average = red(A.reduce_mean)
np.std = red(A.reduce_std)
np.var = red(A.reduce_var)
np.max = np.amax = red(lambda a, axis=None, **k: A.reduce_ext(a, axis, "max"))
np.min = np.amin = red(lambda a, axis=None, **k: A.reduce_ext(a, axis, "min"))
np.any = red(lambda a, axis=None, **k: A.reduce_bool(a, "any"))
np.all = red(lambda a, axis=None, **k: A.reduce_bool(a, "all"))
np.cumsum = lambda a, axis=None, **k: A.cumsum(as_array(a), axis)
np.size = lambda a: as_array(a).size
np.ndim = lambda a: as_array(a).ndim
np.shape = lambda a: as_array(a).shape
np.round = np.around = lambda a, n=0: as_array(a).round(n) if isinstance(a, SymArray) else round(a, n)


@reg("prod")
def prod(a, axis=None):
    a = as_array(a)
    if a.concrete() and axis is None:
        r = X.ONE
        for x in A.flat(a):
            r = X.mul(r, lift(x))
        return Sym(r)
    raise Unsupported("prod")


@reg("clip")
def clip(a, lo, hi):
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


@reg("pad")
def pad(a, *k, **kw):
    raise Unsupported("pad")


@reg("diff")
def diff(a):
    a = as_array(a)
    return a[1:] - a[:-1]


@reg("array2string")
def array2string(a, **k):
    return f"⟦array2string {a.token() if isinstance(a, SymArray) else a!r} {sorted(k.items())!r}⟧"


@reg("errstate")
class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


np.seterr = lambda **k: {}
np.vectorize = lambda f, **k: (_ for _ in ()).throw(Unsupported("vectorize"))

# ---------------------------------------------------------------- np.random
rnd = types.ModuleType("numpy.random")


def _draw(kind, size):
    assumed(f"random generator: np.random.{kind} returns an arbitrary array of the requested shape")
    n = G.ENG.newseq()
    f = f"rand@{n}"
    if size is None:
        return Sym(X.app(f))
    return SymArray.make(shp(size), lambda ix: X.app(f, *ix))


def _normal(loc=0.0, scale=1.0, size=None):
    r = _draw("normal", size)
    G.ENG.path.events.append(("normal", r.copy() if isinstance(r, SymArray) else r))
    G.ENG.ghost_rand = getattr(G.ENG, "ghost_rand", 0) + 1
    return r * scale + loc


rnd.normal = _normal
rnd.standard_normal = lambda size=None: _draw("standard_normal", size)
rnd.randn = lambda *s: _draw("randn", s or None)
rnd.seed = lambda *a: None


class _Gen:
    def normal(self, loc=0.0, scale=1.0, size=None):
        return _normal(loc, scale, size)

    def standard_normal(self, size=None):
        return _draw("standard_normal", size)


rnd.default_rng = lambda *a: _Gen()
np.random = rnd

# ---------------------------------------------------------------- math
mt = types.ModuleType("math")
for _n in ("exp", "log", "sqrt", "log1p", "expm1", "sin", "cos", "tanh"):
    setattr(mt, _n, getattr(np, _n))
mt.fabs = np.abs
mt.pow = np.power
mt.atan = np.arctan
mt.pi, mt.e, mt.inf, mt.nan = np.pi, np.e, np.inf, np.nan
mt.erf = lambda x: el(e_erf, x)
mt.erfc = lambda x: el(lambda a: X.sub(X.ONE, e_erf(a)), x)
mt.isfinite, mt.isnan, mt.isinf = isfinite, isnan, isinf


def _floorlike(f):
    def g(x):
        if isinstance(x, Sym):
            if x.e.sort == "int":
                return x
            c = G.ENG.const_of(x.e)
            if c is None:
                raise Unsupported("floor of a symbolic real")
            return f(c)
        return f(x)
    return g


mt.floor, mt.ceil, mt.trunc = _floorlike(_m.floor), _floorlike(_m.ceil), _floorlike(_m.trunc)
np.floor, np.ceil = mt.floor, mt.ceil


def _comb(n, k, **kw):
    if not isinstance(n, Sym) and not isinstance(k, Sym):
        return _m.comb(int(n), int(k))
    return Sym(X.app("comb", lift(n), lift(k), sort="int"))


mt.comb = _comb
mt.factorial = lambda n: Sym(X.app("fact", lift(n), sort="int")) if isinstance(n, Sym) else _m.factorial(n)
mt.fsum = lambda x: LD.b_sum(x)
mt.copysign = lambda a, b: np.abs(a) * np.where(Sym(lift(b)) >= 0, 1, -1)
mt.hypot = lambda a, b: np.sqrt(a * a + b * b)


def e_erf(a):
    return X.sub(X.mul(X.TWO, X.app(X.CND, X.mul(X.sqrt(X.TWO), a))), X.ONE)


# ---------------------------------------------------------------- scipy
sp = types.ModuleType("scipy")
sp_opt = types.ModuleType("scipy.optimize")
sp_stats = types.ModuleType("scipy.stats")
sp_int = types.ModuleType("scipy.integrate")
sp_spec = types.ModuleType("scipy.special")
sp.optimize, sp.stats, sp.integrate, sp.special = sp_opt, sp_stats, sp_int, sp_spec
sp_spec.ndtr = lambda x: el(lambda a: X.app(X.CND, a), x)
sp_spec.erf, sp_spec.erfc = mt.erf, mt.erfc
sp_spec.comb = sp_spec.binom = _comb


class _Norm:
    @staticmethod
    def pdf(x, loc=0, scale=1):
        z = (x - loc) / scale
        return el(X.ndf, z) / scale

    @staticmethod
    def logpdf(x, loc=0, scale=1):
        z = (x - loc) / scale
        return -z * z / 2 - np.log(np.sqrt(2 * np.pi)) - np.log(scale)

    @staticmethod
    def cdf(x, loc=0, scale=1):
        return el(lambda a: X.app(X.CND, a), (x - loc) / scale)

    @staticmethod
    def ppf(u, loc=0, scale=1):
        assumed("scipy.stats.norm.ppf: the normal quantile function (uninterpreted)")
        return el(lambda a: X.app("ppf", a), u)

    @staticmethod
    def rvs(loc=0, scale=1, size=None, **k):
        return _normal(loc, scale, size)


sp_stats.norm = _Norm
qmc = types.ModuleType("scipy.stats.qmc")


class Sobol:
    """scrambled: arbitrary points; unscrambled: point j of the sequence"""
    count = 0

    def __init__(self, d, scramble=True, **k):
        assumed("scipy.stats.qmc.Sobol: unscrambled random(n) returns points pos..pos+n-1 of one fixed sequence; "
                "scrambled returns an arbitrary array")
        self.d, self.scramble, self.pos = d, scramble, X.ZERO
        self.id = G.ENG.newseq() if scramble is not False else None

    def fast_forward(self, n):
        self.pos = X.add(self.pos, lift(n))
        return self

    def random(self, n=1, **k):
        pos = self.pos
        self.pos = X.add(pos, lift(n))
        nm = "sobol" if self.id is None else f"sobol@{self.id}"
        d = lift(self.d)
        return SymArray.make(shp((n, self.d)), lambda ix: X.app(nm, d, A.simp_int(X.add(pos, ix[0])), ix[1]))


qmc.Sobol = Sobol
sp_stats.qmc = qmc


def quad(f, a, b, args=(), epsabs=None, epsrel=None, **k):
    assumed("scipy.integrate.quad(f, a, b)[0] is the integral of f over [a, b]")
    en = G.ENG
    v = en.fresh("phi", "real")
    X.POSVARS.add(v)
    en.assume(X.lt(X.ZERO, v))
    if not isinstance(args, tuple):
        args = (args,)
    old, en.quadvar = getattr(en, "quadvar", None), v
    try:
        r = f(Sym(v), *args)
    finally:
        en.quadvar = old
    if isinstance(r, SymArray):
        r = r.scalar_item()
    e = X.binder("integral", v, lift(r), lift(a), lift(b))
    return (Sym(e), Sym(X.app("quaderr", e)))


sp_int.quad = quad


class Res:
    def __init__(self, **k):
        self.__dict__.update(k)


def root_scalar(f, args=(), method=None, bracket=None, x0=None, **k):
    assumed("scipy.optimize.root_scalar returns a point at which the function is zero")
    en = G.ENG
    if not isinstance(args, tuple):
        args = (args,)
    x = en.fresh("root", "real")
    en.path.events.append(("root_scalar", f, args, bracket, k, Sym(x)))
    v = f(Sym(x), *args)
    if isinstance(v, SymArray):
        v = v.scalar_item()
    en.path.ghost_root = (x, lift(v))
    en.rootinfo = (x, lift(v))
    return Res(root=Sym(x), converged=True, fval=v)


def root(f, x0=None, args=(), **k):
    assumed("scipy.optimize.root returns an array at which the function is zero")
    en = G.ENG
    if not isinstance(args, tuple):
        args = (args,)
    x0 = as_array(x0)
    n = en.newseq()
    nm = f"root@{n}"
    x = SymArray.make(x0.shp, lambda ix: X.app(nm, *ix))
    v = f(x, *args)
    en.path.events.append(("root", f, args, None, k, x, v))
    en.rootinfo = (x, v)
    return Res(x=x, success=True, fun=v)


sp_opt.root_scalar, sp_opt.root = root_scalar, root


def brentq(f, a, b, args=(), **k):
    return root_scalar(f, args if isinstance(args, tuple) else (args,), bracket=[a, b], **k).root


sp_opt.brentq = sp_opt.bisect = sp_opt.brenth = sp_opt.ridder = brentq
sp_opt.newton = lambda f, x0, fprime=None, args=(), **k: root_scalar(f, args, x0=x0, **k).root


def minimize(f, x0, args=(), method=None, **k):
    assumed("scipy.optimize.minimize returns some point x of the dimension of x0, with fun = f(x)")
    en = G.ENG
    if not isinstance(args, tuple):
        args = (args,)
    x0 = as_array(x0)
    n = en.newseq()
    x = SymArray.make(x0.shp, lambda ix: X.app(f"argmin@{n}", *ix))
    en.minvar = x.copy()
    v = f(x.copy(), *args)
    if isinstance(v, SymArray):
        v = v.scalar_item()
    en.path.events.append(("minimize", f, x0.copy(), args, method, k, x.copy(), v))
    return Res(x=x, fun=v, success=True)


sp_opt.minimize = minimize

# ---------------------------------------------------------------- numdifftools
from .solver import replace as solver_replace
nd = types.ModuleType("numdifftools")


class NDerivative:
    def __init__(self, fun, step=None, method="central", order=2, n=1, **k):
        assumed("numdifftools.Derivative(f, n)(x) is the n-th derivative of f at x")
        self.f, self.n, self.k = fun, n, k

    def __call__(self, x, *a, **k):
        en = G.ENG
        if x is None:
            raise TypeError("unsupported operand: NoneType")
        if isinstance(x, SymArray) and len(x.shp) > 0:
            return self.elementwise(x, a)
        if isinstance(x, SymArray):
            x = x.scalar_item()
        v = en.fresh("d", "real")
        x = lift(x)
        if x in X.POSVARS:
            X.POSVARS.add(v)
            en.assume(X.lt(X.ZERO, v))
        r = self.f(Sym(v), *a)
        en.path.events.append(("derivative", self.n, x, dict(self.k)))

        def der(e):
            return X.binder("deriv", v, e, lift(self.n), x)
        if isinstance(r, SymArray) and len(r.shp) > 0:
            return SymArray.make(r.shp, lambda ix, r=r.copy(): der(r.get(*ix)))
        return Sym(der(lift(r.scalar_item() if isinstance(r, SymArray) else r)))

    def elementwise(self, x, a):
        """an array of points: f is evaluated on an array of unknowns; entry i of the value must depend on unknown i alone"""
        en = G.ENG
        x = x.copy()
        nm = f"d@{en.newseq()}"
        r = self.f(SymArray.make(x.shp, lambda ix: X.app(nm, *ix)), *a)
        if not isinstance(r, SymArray) or len(r.shp) != len(x.shp):
            raise Unsupported("finite differences: value and point differ in shape")
        if not all(en.prover.prove(en.ctx, X.eq(p, q)).status == "proved" for p, q in zip(r.shp, x.shp)):
            raise Unsupported("finite differences: value and point differ in shape")
        r = r.copy()
        en.path.events.append(("derivative", self.n, x, dict(self.k)))

        def at(ix):
            e = r.get(*ix)
            v = X.fresh("d", "real")
            e = solver_replace(e, {X.app(nm, *ix): v})
            if nm in X.names_in(e):
                raise Unsupported("finite differences: not elementwise")
            return X.binder("deriv", v, e, lift(self.n), x.get(*ix))
        return SymArray.make(x.shp, at)


nd.Derivative = NDerivative

# ---------------------------------------------------------------- plotting
class _Plot(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def rec(*a, **k):
            if G.ENG is not None and getattr(G.ENG, "path", None) is not None:
                G.ENG.path.events.append(("plt." + n, a, tuple(sorted(k.items()))))
            return _Plot(n)
        return rec


mpl = types.ModuleType("matplotlib")
plt = _Plot("matplotlib.pyplot")
mpl.pyplot = plt

for _k, _v in {"numpy": np, "numpy.random": rnd, "math": mt, "scipy": sp, "scipy.optimize": sp_opt,
               "scipy.stats": sp_stats, "scipy.stats.qmc": qmc, "scipy.integrate": sp_int,
               "scipy.special": sp_spec, "numdifftools": nd, "matplotlib": mpl,
               "matplotlib.pyplot": plt}.items():
    LD.register(_k, _v)
