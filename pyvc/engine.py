"""Path exploration of real CPython code over symbolic values.

The code under verification is executed by CPython itself.  Values are Sym /
SymArray proxies; a branch on a symbolic condition forks the path (by
re-execution); a loop whose trip count is symbolic is cut by an invariant
(probe -> step -> exit), see LoopNode.
"""
import sys
import time
from fractions import Fraction
from . import expr as X
from .expr import E, names_in
from .solver import Theory, Ctx, Prover, Simp, Result, replace
from .norm import F1, padd, pscale


class Unsupported(BaseException):
    """the construct is outside the verified subset"""


class PathEnd(BaseException):
    """this exploration path is finished (probe / step / infeasible)"""


class NeedSym(BaseException):
    pass


class Budget(BaseException):
    pass


class Restart(BaseException):
    pass


ENG = None


def eng():
    return ENG


# ------------------------------------------------------------------ scalars
class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return bin_(X.add, self, o)

    def __radd__(self, o):
        return bin_(X.add, o, self)

    def __sub__(self, o):
        return bin_(X.sub, self, o)

    def __rsub__(self, o):
        return bin_(X.sub, o, self)

    def __mul__(self, o):
        return bin_(X.mul, self, o)

    def __rmul__(self, o):
        return bin_(X.mul, o, self)

    def __truediv__(self, o):
        return bin_(div_, self, o)

    def __rtruediv__(self, o):
        return bin_(div_, o, self)

    def __pow__(self, o):
        return bin_(pow__, self, o)

    def __rpow__(self, o):
        return bin_(pow__, o, self)

    def __floordiv__(self, o):
        return bin_(floordiv_, self, o)

    def __rfloordiv__(self, o):
        return bin_(floordiv_, o, self)

    def __mod__(self, o):
        return bin_(mod_, self, o)

    def __neg__(self):
        return Sym(X.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(X.abs_(self.e))

    def __lt__(self, o):
        return cmp_(X.lt, self, o)

    def __le__(self, o):
        return cmp_(X.le, self, o)

    def __gt__(self, o):
        return cmp_(X.gt, self, o)

    def __ge__(self, o):
        return cmp_(X.ge, self, o)

    def __eq__(self, o):
        return cmp_(X.eq, self, o)

    def __ne__(self, o):
        return cmp_(lambda a, b: X.not_(X.eq(a, b)), self, o)

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return ENG.branch(X.not_(X.eq(self.e, X.ZERO)))

    def __index__(self):
        c = ENG.const_of(self.e)
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic value used as a concrete index")

    def __float__(self):
        if X.is_const(self.e):
            return float(self.e.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return self.__index__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __round__(self, n=None):
        return Sym(X.app("round", self.e, X.const(n if n is not None else 0)))

    def round(self, n=0):
        return Sym(X.app("round", self.e, X.const(n)))

    def copy(self):
        return self

    def item(self):
        return self

    def mean(self):
        return self

    def sum(self):
        return self

    @property
    def real(self):
        return Sym(X.real_part(self.e))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def token(self):
        return f"⟦{ENG.token(self.e)}⟧"

    def __repr__(self):
        return self.token() if ENG is not None else X.show(self.e)

    __str__ = __repr__

    def __format__(self, spec):
        return self.token() if not spec else f"⟦{ENG.token(self.e)}:{spec}⟧"


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, o):
        return mkbool(X.and_(self.e, liftb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(X.or_(self.e, liftb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        o = liftb(o)
        return mkbool(X.or_(X.and_(self.e, X.not_(o)), X.and_(X.not_(self.e), o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(X.not_(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(X.eq(self.e, liftb(o)))
        return cmp_(X.eq, Sym(X.ite(self.e, X.ONE, X.ZERO)), o)

    def __ne__(self, o):
        r = self == o
        return mkbool(X.not_(liftb(r)))

    def __hash__(self):
        return hash(self.e)

    def any(self):
        return self

    def all(self):
        return self

    def _num(self):
        return Sym(X.ite(self.e, X.ONE, X.ZERO))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __deepcopy__(self, memo):
        return self


def mkbool(e):
    if e is X.TRUE:
        return True
    if e is X.FALSE:
        return False
    return SymBool(e)


def liftb(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, bool):
        return X.TRUE if o else X.FALSE
    if isinstance(o, Sym) and o.e.sort == "bool":
        return o.e
    raise Unsupported(f"boolean expected, got {type(o).__name__}")


INF = X.app("inf")


def lift(o):
    """python number -> term"""
    if isinstance(o, Sym):
        return o.e
    if isinstance(o, bool):
        return X.ONE if o else X.ZERO
    if isinstance(o, int):
        return X.const(o)
    if isinstance(o, float):
        if o != o:
            return X.app("nan")
        if o == float("inf"):
            return INF
        if o == -float("inf"):
            return X.neg(INF)
        return X.const(o)
    if isinstance(o, complex):
        return X.add(lift(o.real), X.mul(lift(o.imag), X.IMAG))
    if isinstance(o, Fraction):
        return X.const(o)
    if isinstance(o, SymBool):
        return X.ite(o.e, X.ONE, X.ZERO)
    if isinstance(o, E):
        return o
    raise Unsupported(f"cannot use {type(o).__name__} as a number")


NUM = (int, float, complex, Fraction)


def bin_(f, a, b):
    for o in (a, b):
        if not isinstance(o, (Sym,) + NUM + (SymBool,)):
            return NotImplemented
    return Sym(f(lift(a), lift(b)))


def cmp_(f, a, b):
    for o in (a, b):
        if not isinstance(o, (Sym,) + NUM + (SymBool,)):
            if o is None or isinstance(o, str):
                if f is X.eq:
                    return False
                return NotImplemented
            return NotImplemented
    return mkbool(f(lift(a), lift(b)))


def div_(a, b):
    ENG.defined("div", X.not_(X.eq(b, X.ZERO)))
    return X.div(a, b)


def pow__(a, b):
    return X.pow_(a, b)


def floordiv_(a, b):
    if X.is_const(a) and X.is_const(b):
        return X.const(Fraction(X.cval(a) // X.cval(b)))
    if a.sort != "int" or b.sort != "int":
        raise Unsupported("symbolic floor division")
    return X.app("idiv", a, b, sort="int")


def mod_(a, b):
    if X.is_const(a) and X.is_const(b):
        return X.const(Fraction(X.cval(a) % X.cval(b)))
    if a.sort != "int" or b.sort != "int":
        raise Unsupported("symbolic modulo")
    return X.app("imod", a, b, sort="int")


class Poison:
    """value of a local that is not bound on some path"""

    def _bad(self, *a, **k):
        raise Unsupported("use of a possibly unbound local")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _bad
    __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __bool__ = __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = __eq__ = __ne__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("use of a possibly unbound local")


POISON = Poison()


# ------------------------------------------------------------------ results
class Path:
    def __init__(self):
        self.pc = []
        self.kind = None       # 'return' / 'raise'
        self.value = None
        self.ctx = None
        self.obls = []
        self.decisions = None
        self.loops = 0
        self.weak = False
        self.ghost = {}
        self.events = []


class Obl:
    def __init__(self, name, status, how="", env=None, loc=""):
        self.name, self.status, self.how, self.env, self.loc = name, status, how, env, loc

    def __repr__(self):
        return f"{self.status}:{self.name}"


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, theory, hyps=(), seed=1, max_paths=400, time_limit=120, templates=()):
        self.th = theory
        self.prover = Prover(theory, seed)
        self.base = Ctx(theory, hyps)
        self.templates = list(templates)
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.tokens = {}
        self.stats = {"paths": 0, "forks": 0, "loops": 0, "defined_ok": 0, "defined_assumed": 0}
        self.assumed_defined = {}
        self.obls = []
        self.notes = []
        self.allow_inf = False
        self.preds = []
        self.skip_defs = False
        self.branch_ms = 600

    # ------------------------------------------------------------ exploring
    def explore(self, fn):
        """run fn() on every path; returns list of Path"""
        global ENG
        self.results = []
        self.stack = []
        self.force_sym = set()
        self.t0 = time.time()
        nruns = 0
        old = ENG
        ENG = self
        try:
            while True:
                nruns += 1
                if nruns > self.max_paths or time.time() - self.t0 > self.time_limit:
                    raise Budget(f"{nruns} runs")
                self.pos = 0
                self.ctx = self.base
                self.path = Path()
                self.seq = 0
                self.stores = {}
                self.fcount = 0
                self.defseen = set()
                self.wlog = []
                self.loopstack = []
                self.cond_loop = None
                self.ghost = {}
                self.counter = 0
                p = self.path
                try:
                    v = fn()
                    p.kind, p.value = "return", v
                except PathEnd:
                    p.kind = "end"
                except Restart:
                    self.results = []
                    self.stack = []
                    continue
                except (Unsupported, Budget, NeedSym):
                    raise
                except RecursionError:
                    raise Unsupported("recursion limit")
                except Exception as ex:
                    p.kind, p.value = "raise", ex
                if any(isinstance(s, object) and getattr(s, "stage", None) == "probe" for s in self.stack[:self.pos]):
                    p.kind = "end"
                p.ctx = self.ctx
                p.ghost = dict(self.ghost)
                p.decisions = [s.show() for s in self.stack]
                if p.kind != "end":
                    self.results.append(p)
                    self.stats["paths"] += 1
                if not self.backtrack():
                    break
            return self.results
        finally:
            ENG = old
            self.stats["runs"] = nruns

    def backtrack(self):
        while self.stack:
            s = self.stack[-1]
            if s.next(self):
                return True
            self.stack.pop()
        return False

    # ------------------------------------------------------------ branching
    def branch(self, c):
        c = self.ctx.rw(c)
        if "inf" in names_in(c) and not self.allow_inf:
            c = drop_inf(c)
        d = self.ctx.decide(c, self.branch_ms)
        if d is not None:
            return d
        if any(x.op == "ite" for x in X.subterms(c)):
            from .solver import Simp
            c = Simp(self.ctx)(c)
            if c.op in ("true", "false"):
                return c is X.TRUE
        if self.cond_loop is not None:
            raise NeedSym
        if self.pos < len(self.stack):
            n = self.stack[self.pos]
            self.pos += 1
            assert isinstance(n, Branch), "non deterministic re-execution"
            v = n.val
        else:
            n = Branch(c)
            self.stack.append(n)
            self.pos += 1
            v = n.val
            self.stats["forks"] += 1
        self.assume(c if v else X.not_(c))
        self.path.pc.append(c if v else X.not_(c))
        return v

    def assume(self, c):
        self.ctx = self.ctx.add(c)

    def const_of(self, e):
        e = self.ctx.rw(e)
        if X.is_const(e):
            return X.cval(e)
        p = self.th.N.norm(e)
        if not p:
            return Fraction(0)
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def defined(self, what, c):
        """definedness side condition"""
        if c is X.TRUE:
            return
        k = (what, c)
        if k in self.defseen:
            return
        self.defseen.add(k)
        if self.skip_defs and what in ("div", "log", "sqrt"):
            self.stats["defined_skipped"] = self.stats.get("defined_skipped", 0) + 1
            return
        try:
            r = self.ctx.decide(c, 300)
        except RecursionError:
            r = None
        if r is True:
            self.stats["defined_ok"] += 1
        else:
            self.stats["defined_assumed"] += 1
            self.assumed_defined.setdefault(what, set()).add(X.show(c)[:160])

    def token(self, e):
        # tokens are canonical up to provable equality
        for k, i in self.tokens.items():
            if k is e:
                return i
        for k, i in self.tokens.items():
            if self.th.N.equal(k, e):
                return i
        i = len(self.tokens)
        self.tokens[e] = i
        return i

    def newseq(self, store=None):
        self.seq += 1
        self.stores[self.seq] = store
        return self.seq

    def fresh(self, prefix, sort="real"):
        """deterministic along a path, so that re-execution rebuilds the same terms"""
        self.fcount += 1
        return X.var(f"{prefix}@{self.fcount}.{sort}", sort)

    def log_write(self, store):
        self.wlog.append(store)

    def eq_int(self, a, b):
        """are two integer terms provably equal here?"""
        if a is b:
            return True
        return self.ctx.decide(X.eq(a, b)) is True


def drop_inf(c):
    """comparisons with infinity, reading every other term as finite"""
    if c.op in ("and", "or"):
        return (X.and_ if c.op == "and" else X.or_)(*[drop_inf(x) for x in c.args])
    if c.op == "not":
        return X.not_(drop_inf(c.args[0]))
    if c.op in ("eq", "lt", "le"):
        a, b = c.args
        ai, bi = inf_sign(a), inf_sign(b)
        if ai or bi:
            if ai and bi:
                r = ai == bi if c.op == "eq" else ai < bi if c.op == "lt" else ai <= bi
            elif c.op == "eq":
                r = False
            elif ai:
                r = ai < 0
            else:
                r = bi > 0
            return X.TRUE if r else X.FALSE
    return c


def inf_sign(e):
    if e is INF:
        return 1
    if e is X.neg(INF):
        return -1
    return 0


class Branch:
    def __init__(self, c):
        self.c = c
        self.val = True
        self.tried = 1

    def next(self, en):
        if self.tried == 1:
            self.tried = 2
            self.val = False
            return True
        return False

    def show(self):
        return ("" if self.val else "not ") + X.show(self.c)


