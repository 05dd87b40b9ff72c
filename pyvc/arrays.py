"""Symbolic numpy arrays: a shape of integer terms and a content function."""
from fractions import Fraction
import itertools
from . import expr as X
from .expr import E
from . import engine as G
from .engine import Sym, SymBool, lift, mkbool, Unsupported, NUM
from .solver import Simp

MAXCONC = 40000


def cint(e):
    """python int if the term is constant here, else None"""
    if X.is_const(e):
        c = X.cval(e)
    elif G.ENG is not None:
        c = G.ENG.const_of(e)
    else:
        return None
    if c is None or c.denominator != 1:
        return None
    return int(c)


def wrap(e):
    if e.sort == "bool":
        return mkbool(e)
    return Sym(e)


class Store:
    __slots__ = ("shape", "cshape", "fn", "data", "seq", "intd")

    def __init__(self, shape, fn=None, data=None, intd=False):
        self.shape = tuple(shape)
        cs = []
        for s in self.shape:
            c = cint(s)
            if c is None:
                cs = None
                break
            cs.append(c)
        self.cshape = tuple(cs) if cs is not None else None
        self.intd = intd
        self.seq = G.ENG.newseq(self) if G.ENG is not None else 0
        self.fn, self.data = fn, data
        if self.cshape is not None and data is None:
            size = 1
            for c in self.cshape:
                size *= c
            if size <= MAXCONC:
                self.data = {ix: fn(tuple(X.const(i) for i in ix))
                             for ix in itertools.product(*[range(c) for c in self.cshape])}
                self.fn = None

    def reader(self):
        """immutable snapshot of the content"""
        if self.data is not None:
            data, cs = self.data, self.cshape

            def rd(ix):
                c = []
                for e in ix:
                    k = cint(e)
                    if k is None:
                        return rd_sym(data, cs, ix)
                    c.append(k)
                try:
                    return data[tuple(c)]
                except KeyError:
                    raise IndexError("index out of bounds")
            return rd
        return self.fn

    def get(self, ix):
        return self.reader()(ix)

    def check_dtype(self, v):
        if self.intd and v.sort != "int":
            raise Unsupported("write of a real into an integer array")

    def set(self, ix, v):
        self.check_dtype(v)
        G.ENG.log_write(self)
        if self.data is not None:
            c = [cint(e) for e in ix]
            if None not in c:
                d = dict(self.data)
                d[tuple(c)] = v
                self.data = d
                return
        old = self.reader()
        ix = tuple(ix)

        def fn(j, old=old, ix=ix, v=v):
            c = X.and_(*[G_eq(a, b) for a, b in zip(j, ix)])
            if c is X.TRUE:
                return v
            if c is X.FALSE:
                return old(j)
            return X.ite(c, v, old(j))
        self.put(fn)

    def put(self, fn):
        if self.data is not None:
            self.data = {k: fn(tuple(X.const(i) for i in k)) for k in self.data}
        else:
            self.fn = fn

    def set_where(self, cond, val):
        """content[j] := val(j) where cond(j)"""
        G.ENG.log_write(self)
        old = self.reader()

        def fn(j):
            c = cond(j)
            if c is X.FALSE:
                return old(j)
            if c is X.TRUE:
                return val(j)
            return X.ite(c, val(j), old(j))
        self.put(fn)

    def havoc(self, fn, shape=None):
        G.ENG.log_write(self)
        if shape is not None:
            self.shape = shape
        self.data, self.fn, self.cshape = None, fn, None
        st = Store(self.shape, fn)
        self.data, self.fn, self.cshape = st.data, st.fn, st.cshape


def G_eq(a, b):
    if a is b:
        return X.TRUE
    e = X.eq(a, b)
    if e.op == "eq" and G.ENG is not None:
        c = G.ENG.const_of(X.sub(a, b))
        if c is not None:
            return X.TRUE if c == 0 else X.FALSE
    return e


def rd_sym(data, cs, ix):
    """read of a concrete array at a symbolic index"""
    size = 1
    for c in cs:
        size *= c
    if size > 256 or size == 0:
        raise Unsupported("symbolic index into a large concrete array")
    out = None
    for k, v in data.items():
        c = X.and_(*[G_eq(e, X.const(i)) for e, i in zip(ix, k)])
        if c is X.FALSE:
            continue
        out = v if out is None or c is X.TRUE else X.ite(c, v, out)
        if c is X.TRUE:
            break
    if out is None:
        raise IndexError("index out of bounds")
    return out


class Dim:
    """base index = off + step * view index[k]"""
    __slots__ = ("k", "off", "step")

    def __init__(self, k, off, step):
        self.k, self.off, self.step = k, off, step

    def at(self, ix):
        if self.k is None:
            return self.off
        i = ix[self.k]
        if self.step == 1:
            return X.add(self.off, i)
        return X.add(self.off, X.mul(X.const(self.step), i))


class SymArray:
    __array_priority__ = 2000
    __slots__ = ("store", "dims", "shp", "view")

    def __init__(self, store, dims=None, shp=None, view=False):
        self.store = store
        self.dims = dims
        self.shp = tuple(shp) if shp is not None else store.shape
        self.view = view

    # ------------------------------------------------------------ basics
    @staticmethod
    def make(shape, fn, intd=False):
        return SymArray(Store(shape, fn, intd=intd))

    def base_ix(self, ix):
        if self.dims is None:
            return ix
        return tuple(d.at(ix) for d in self.dims)

    def reader(self):
        rd = self.store.reader()
        if self.dims is None:
            return rd
        return lambda ix: rd(self.base_ix(ix))

    def get(self, *ix):
        return self.store.get(self.base_ix(tuple(ix)))

    @property
    def shape(self):
        return tuple(pyint(s) for s in self.shp)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        if not self.shp:
            return 1
        return pyint(X.mul(*self.shp))

    @property
    def dtype(self):
        return "float64"

    def __len__(self):
        if not self.shp:
            raise TypeError("len() of unsized object")
        c = cint(self.shp[0])
        if c is None:
            raise Unsupported("len() of a symbolic array")
        return c

    def symlen(self):
        return pyint(self.shp[0])

    def concrete(self):
        return all(cint(s) is not None for s in self.shp)

    def __iter__(self):
        c = cint(self.shp[0]) if self.shp else None
        if c is None:
            raise Unsupported("iteration over a symbolic array")
        return iter([self[i] for i in range(c)])

    def __bool__(self):
        if all(cint(s) == 1 for s in self.shp):
            return bool(wrap(self.get(*[X.ZERO] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def scalar_item(self):
        if all(cint(s) == 1 for s in self.shp):
            return wrap(self.get(*[X.ZERO] * self.ndim))
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    item = scalar_item

    def __float__(self):
        return float(self.scalar_item())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def copy(self, order=None):
        return SymArray.make(self.shp, self.reader(), intd=self.store.intd)

    def astype(self, t, *a, **k):
        if t is float or t == "float64" or getattr(t, "__name__", "") == "float":
            return self.copy()
        raise Unsupported("astype")

    @property
    def T(self):
        n = self.ndim
        if n < 2:
            return self
        return self.permute(tuple(range(n))[::-1])

    def transpose(self, *ax):
        if not ax:
            return self.T
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        return self.permute(ax)

    def permute(self, ax):
        # new view dim k is old dim ax[k]
        inv = {o: k for k, o in enumerate(ax)}
        dims = self.dims or [Dim(k, X.ZERO, 1) for k in range(self.ndim)]
        nd = [Dim(None if d.k is None else inv[d.k], d.off, d.step) for d in dims]
        return SymArray(self.store, nd, [self.shp[o] for o in ax], True)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def flatten(self, *a):
        return flat(self)

    ravel = flatten

    def tolist(self):
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def fill(self, v):
        self[(slice(None),) * self.ndim] = v

    # ------------------------------------------------------------ indexing
    def norm_index(self, i, n, what=True):
        e = lift(i)
        c = cint(e)
        if c is not None:
            e = X.const(c)
            if c < 0:
                e = X.add(n, e)
        elif e.sort != "int":
            raise IndexError("only integers are valid indices")
        else:
            d = G.ENG.ctx.decide(X.ge(e, X.ZERO))
            if d is None:
                d = not G.ENG.branch(X.lt(e, X.ZERO))
            if d is False:
                e = X.add(n, e)
        inb = X.and_(X.le(X.ZERO, e), X.lt(e, n))
        d = [G.ENG.ctx.decide(x) for x in (X.le(X.ZERO, e), X.lt(e, n))]
        if False in d:
            raise IndexError("index out of bounds")
        if None in d:
            G.ENG.defined("index", inb)
        return e

    def norm_slice(self, s, n):
        """-> (offset, step, length)"""
        step = 1 if s.step is None else s.step
        step = cint(lift(step))
        if step is None or step == 0:
            raise Unsupported("symbolic slice step")
        ctx = G.ENG.ctx

        def bound(v, default, lo, hi):
            if v is None:
                return default
            e = lift(v)
            c = cint(e)
            if c is not None:
                e = X.const(c)
                if c < 0:
                    e = X.add(n, e)
            else:
                d = ctx.decide(X.ge(e, X.ZERO))
                if d is None:
                    d = not G.ENG.branch(X.lt(e, X.ZERO))
                if d is False:
                    e = X.add(n, e)
            # clamp to [lo, hi]
            if G.ENG.ctx.decide(X.ge(e, lo)) is not True:
                e = lo if G.ENG.ctx.decide(X.le(e, lo)) is True else X.max_(e, lo)
            if G.ENG.ctx.decide(X.le(e, hi)) is not True:
                e = hi if G.ENG.ctx.decide(X.ge(e, hi)) is True else X.min_(e, hi)
            return e
        m1 = X.const(-1)
        if step > 0:
            a = bound(s.start, X.ZERO, X.ZERO, n)
            b = bound(s.stop, n, X.ZERO, n)
            ln = X.sub(b, a)
        else:
            a = bound(s.start, X.sub(n, X.ONE), m1, X.sub(n, X.ONE))
            b = bound(s.stop, m1, m1, X.sub(n, X.ONE))
            ln = X.sub(a, b)
        st = abs(step)
        if st != 1:
            c = cint(ln)
            if c is None:
                raise Unsupported("strided slice of a symbolic array")
            ln = X.const(max(0, -(-c // st)))
        else:
            c = cint(ln)
            if c is not None:
                ln = X.const(max(c, 0))
            elif ctx.decide(X.ge(ln, X.ZERO)) is not True:
                ln = X.pp(ln)
            else:
                ln = simp_int(ln)
        return simp_int(a), step, ln

    def index(self, key):
        """-> (dims, shape) of the view, or ('fancy', ...)"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            used = sum(1 for k in key if k is not None) - 1
            key = key[:i] + (slice(None),) * (self.ndim - used) + key[i + 1:]
        used = sum(1 for k in key if k is not None)
        if used > self.ndim:
            raise IndexError("too many indices for array")
        key = key + (slice(None),) * (self.ndim - used)
        vd = []          # per old view dim: ('c', e) or ('s', off, step, newdim)
        shp = []
        k = 0
        for x in key:
            if x is None:
                shp.append(X.ONE)
                continue
            n = self.shp[k]
            if isinstance(x, slice):
                off, st, ln = self.norm_slice(x, n)
                vd.append((off, st, len(shp)))
                shp.append(ln)
            elif isinstance(x, (int, Sym)) and not isinstance(x, bool):
                vd.append((self.norm_index(x, n), None, None))
            elif isinstance(x, (SymArray, list)):
                raise Fancy()
            elif isinstance(x, float):
                raise IndexError("only integers, slices (`:`) ... are valid indices")
            else:
                raise Unsupported(f"index of type {type(x).__name__}")
            k += 1
        dims0 = self.dims or [Dim(j, X.ZERO, 1) for j in range(self.ndim)]
        nd = []
        for d in dims0:
            if d.k is None:
                nd.append(d)
                continue
            off, st, new = vd[d.k]
            o = X.add(d.off, X.mul(X.const(d.step), off))
            o = simp_int(o)
            nd.append(Dim(new, o, 0 if st is None else d.step * st))
        return nd, shp

    def __getitem__(self, key):
        if isinstance(key, SymArray):
            return self.fancy(key)
        try:
            nd, shp = self.index(key)
        except Fancy:
            if isinstance(key, tuple):
                raise Unsupported("fancy indexing")
            return self.fancy(as_array(key))
        if not shp:
            return wrap(self.store.get(tuple(d.off for d in nd)))
        return SymArray(self.store, nd, shp, True)

    def fancy(self, ia):
        if ia.concrete() and ia.ndim == 1 and self.ndim >= 1:
            n = cint(ia.shp[0])
            els = [ia.get(X.const(i)) for i in range(n)]
            if n and els[0].sort == "bool":
                raise Unsupported("boolean mask")
            rows = [self[Sym(e)] for e in els]
            return stack(rows)
        if ia.ndim == 1 and self.ndim == 1:
            rd, ri = self.reader(), ia.reader()
            return SymArray.make(ia.shp, lambda ix: rd((ri(ix),)))
        raise Unsupported("fancy indexing")

    def __setitem__(self, key, value):
        try:
            nd, shp = self.index(key)
        except Fancy:
            raise Unsupported("fancy assignment")
        if not shp:
            if isinstance(value, SymArray):
                value = value.scalar_item()
            self.store.set(tuple(d.off for d in nd), lift(value))
            return
        tgt = SymArray(self.store, nd, shp, True)
        if isinstance(value, (list, tuple)):
            value = as_array(value)
        if isinstance(value, SymArray):
            vr = broadcast(value, tuple(shp))
        else:
            v = lift(value)
            vr = lambda ix: v
        nv = len(shp)

        def cond_and_ix(j):
            cs = []
            ix = [X.ZERO] * nv
            for d, b in zip(nd, j):
                if d.k is None:
                    cs.append(G_eq(b, d.off))
                else:
                    if abs(d.step) != 1:
                        raise Unsupported("strided region write")
                    t = X.sub(b, d.off) if d.step == 1 else X.sub(d.off, b)
                    t = simp_int(t)
                    ix[d.k] = t
                    cs.append(X.le(X.ZERO, t))
                    cs.append(X.lt(t, shp[d.k]))
            c = X.and_(*[c if not_const(c) else const_cmp(c) for c in cs])
            return c, tuple(ix)
        if any(d.k is not None and abs(d.step) != 1 for d in nd):
            # strided writes on concrete arrays: element by element
            if tgt.concrete():
                for ix in itertools.product(*[range(cint(s)) for s in shp]):
                    e = tuple(X.const(i) for i in ix)
                    self.store.set(tgt.base_ix(e), vr(e))
                return
            raise Unsupported("strided region write")
        # snapshot the value (it may alias the target)
        self.store.set_where(lambda j: cond_and_ix(j)[0], lambda j: vr(cond_and_ix(j)[1]))

    # ------------------------------------------------------------ operators
    def __add__(self, o):
        return ew2(X.add, self, o)

    def __radd__(self, o):
        return ew2(X.add, o, self)

    def __sub__(self, o):
        return ew2(X.sub, self, o)

    def __rsub__(self, o):
        return ew2(X.sub, o, self)

    def __mul__(self, o):
        return ew2(X.mul, self, o)

    def __rmul__(self, o):
        return ew2(X.mul, o, self)

    def __truediv__(self, o):
        return ew2(X.div, self, o)

    def __rtruediv__(self, o):
        return ew2(X.div, o, self)

    def __pow__(self, o):
        return ew2(X.pow_, self, o)

    def __rpow__(self, o):
        return ew2(X.pow_, o, self)

    def __neg__(self):
        return ew1(X.neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ew1(X.abs_, self)

    def __lt__(self, o):
        return ew2(X.lt, self, o)

    def __le__(self, o):
        return ew2(X.le, self, o)

    def __gt__(self, o):
        return ew2(X.gt, self, o)

    def __ge__(self, o):
        return ew2(X.ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return ew1(lambda a: X.FALSE, self)
        return ew2(X.eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return ew1(lambda a: X.TRUE, self)
        return ew2(lambda a, b: X.not_(X.eq(a, b)), self, o)

    __hash__ = object.__hash__

    def __and__(self, o):
        return ew2(X.and_, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return ew2(X.or_, self, o)

    __ror__ = __or__

    def __invert__(self):
        return ew1(X.not_, self)

    def _iop(self, f, o):
        r = ew2(f, self, o)
        self[(slice(None),) * self.ndim] = r
        return self

    def __iadd__(self, o):
        return self._iop(X.add, o)

    def __isub__(self, o):
        return self._iop(X.sub, o)

    def __imul__(self, o):
        return self._iop(X.mul, o)

    def __itruediv__(self, o):
        return self._iop(X.div, o)

    def __ipow__(self, o):
        return self._iop(X.pow_, o)

    def __matmul__(self, o):
        if isinstance(o, SymArray) and self.ndim == 1 and o.ndim == 1:
            return reduce_sum(self * o, None)
        raise Unsupported("matmul")

    def dot(self, o):
        return self @ o

    # ------------------------------------------------------------ methods
    def sum(self, axis=None, **k):
        return reduce_sum(self, axis)

    def mean(self, axis=None, **k):
        return reduce_mean(self, axis)

    def std(self, axis=None, ddof=0, **k):
        return reduce_std(self, axis, ddof)

    def var(self, axis=None, ddof=0, **k):
        return reduce_var(self, axis, ddof)

    def max(self, axis=None):
        return reduce_ext(self, axis, "max")

    def min(self, axis=None):
        return reduce_ext(self, axis, "min")

    def any(self, axis=None):
        return reduce_bool(self, "any")

    def all(self, axis=None):
        return reduce_bool(self, "all")

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def round(self, n=0):
        return ew1(lambda a: X.app("round", a, X.const(n)), self)

    @property
    def real(self):
        return ew1(X.real_part, self)

    def token(self):
        bv = [X.var(f"ι{k}", "int") for k in range(self.ndim)]
        return f"⟦array {G.ENG.token(X.app('array', self.get(*bv), *self.shp))}⟧"

    __repr__ = __str__ = token

    def __format__(self, spec):
        return self.token()


class Fancy(Exception):
    pass


def not_const(c):
    return c.op in ("true", "false")


def const_cmp(c):
    """decide an index comparison when its difference is constant"""
    if c.op in ("lt", "le") and G.ENG is not None:
        v = G.ENG.const_of(X.sub(c.args[0], c.args[1]))
        if v is not None:
            return X.TRUE if (v < 0 if c.op == "lt" else v <= 0) else X.FALSE
    return c


def simp_int(e):
    if X.is_const(e) or e.op == "var" or G.ENG is None:
        return e
    return G.ENG.th.N.poly_e(G.ENG.th.N.norm(e))


def pyint(e):
    c = cint(e)
    return c if c is not None else Sym(e)


# ------------------------------------------------------------------ helpers
def as_array(o):
    if isinstance(o, SymArray):
        return o
    if isinstance(o, (Sym, SymBool) + NUM):
        e = o.e if isinstance(o, (Sym, SymBool)) else lift(o)
        return SymArray.make((), lambda ix: e)
    if isinstance(o, (list, tuple)):
        return stack([as_array(x) if isinstance(x, (list, tuple, SymArray)) else x for x in o])
    if isinstance(o, SymRange):
        return o.array()
    raise Unsupported(f"cannot convert {type(o).__name__} to an array")


def stack(rows):
    n = len(rows)
    if n == 0:
        return SymArray.make((X.ZERO,), lambda ix: X.ZERO)
    if any(isinstance(r, SymArray) and r.ndim for r in rows):
        rows = [as_array(r) for r in rows]
        sh = rows[0].shp
        rds = [broadcast(r, sh) for r in rows]

        def fn(ix):
            c = cint(ix[0])
            if c is not None:
                return rds[c](ix[1:])
            out = rds[-1](ix[1:])
            for i in range(n - 2, -1, -1):
                out = X.ite(G_eq(ix[0], X.const(i)), rds[i](ix[1:]), out)
            return out
        return SymArray.make((X.const(n),) + tuple(sh), fn)
    es = [r.get() if isinstance(r, SymArray) else (r.e if isinstance(r, (Sym, SymBool)) else lift(r)) for r in rows]
    data = {(i,): e for i, e in enumerate(es)}
    allint = all(isinstance(r, int) and not isinstance(r, bool) for r in rows)
    return SymArray(Store((X.const(n),), None, data, intd=allint))


def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        cur = X.ONE
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if cint(d) == 1:
                continue
            if cint(cur) == 1:
                cur = d
            elif not G.ENG.eq_int(cur, d):
                r = G.ENG.ctx.decide(X.eq(cur, d))
                if r is False:
                    raise ValueError("operands could not be broadcast together")
                G.ENG.defined("shape", X.eq(cur, d))
        out.append(cur)
    return tuple(out)


def broadcast(a, shape):
    """reader of a broadcast to shape"""
    rd = a.reader()
    off = len(shape) - a.ndim
    if off < 0:
        # allow dropping leading 1-dims
        if all(cint(s) == 1 for s in a.shp[:-len(shape) or None]):
            lead = len(a.shp) - len(shape)
            return lambda ix: rd((X.ZERO,) * lead + tuple(ix))
        raise ValueError("could not broadcast input array")
    bshape(a.shp, shape)
    one = [cint(s) == 1 for s in a.shp]

    def fn(ix):
        return rd(tuple(X.ZERO if one[k] else ix[off + k] for k in range(len(one))))
    return fn


def ew1(f, a):
    a = as_array(a)
    rd = a.reader()
    return SymArray.make(a.shp, lambda ix: f(rd(ix)))


def ew2(f, a, b):
    for o in (a, b):
        if not isinstance(o, (SymArray, Sym, SymBool, list, tuple) + NUM):
            return NotImplemented
    a, b = as_array(a), as_array(b)
    sh = bshape(a.shp, b.shp)
    ra, rb = broadcast(a, sh), broadcast(b, sh)
    return SymArray.make(sh, lambda ix: f(ra(ix), rb(ix)))


def flat(a):
    a = as_array(a)
    if a.ndim == 1:
        return a.copy()
    if a.ndim == 0:
        e = a.get()
        return SymArray.make((X.ONE,), lambda ix: e)
    if a.concrete():
        cs = [cint(s) for s in a.shp]
        els = [a.get(*[X.const(i) for i in ix]) for ix in itertools.product(*[range(c) for c in cs])]
        return SymArray(Store((X.const(len(els)),), None, {(i,): e for i, e in enumerate(els)}))
    raise Unsupported("flatten of a symbolic array")


def reshape(a, shape):
    a = as_array(a)
    if isinstance(shape, (int, Sym)):
        shape = (shape,)
    sh = [lift(s) for s in shape]
    f = flat(a)
    total = f.shp[0]
    if any(cint(s) == -1 for s in sh):
        k = [cint(s) == -1 for s in sh].index(True)
        if len(sh) == 1:
            sh[k] = total
        else:
            rest = X.mul(*[s for i, s in enumerate(sh) if i != k])
            ct, cr = cint(total), cint(rest)
            if ct is None or cr is None:
                raise Unsupported("reshape -1")
            sh[k] = X.const(ct // cr)
    prod = X.mul(*sh) if sh else X.ONE
    if not G.ENG.eq_int(prod, total):
        if G.ENG.ctx.decide(X.eq(prod, total)) is False:
            raise ValueError("cannot reshape array")
        G.ENG.defined("reshape", X.eq(prod, total))
    rd = f.reader()

    def fn(ix):
        o = X.ZERO
        for k, i in enumerate(ix):
            o = X.add(o, X.mul(i, *sh[k + 1:]))
        return rd((simp_int(o),))
    return SymArray.make(sh, fn)


def concat(arrs, axis=0):
    arrs = [as_array(a) for a in arrs]
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if axis < 0:
        axis += nd
    for a in arrs:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not G.ENG.eq_int(a.shp[k], arrs[0].shp[k]):
                G.ENG.defined("shape", X.eq(a.shp[k], arrs[0].shp[k]))
    total = simp_int(X.add(*[a.shp[axis] for a in arrs]))
    rds = [a.reader() for a in arrs]
    offs = [X.ZERO]
    for a in arrs:
        offs.append(simp_int(X.add(offs[-1], a.shp[axis])))

    def fn(ix):
        i = ix[axis]
        out = None
        for k in range(len(arrs) - 1, -1, -1):
            loc = tuple(simp_int(X.sub(i, offs[k])) if d == axis else ix[d] for d in range(nd))
            c = const_cmp(X.lt(i, offs[k + 1]))
            c0 = const_cmp(X.le(offs[k], i))
            if c0 is X.FALSE:
                continue
            if out is None:
                if c is X.FALSE and k < len(arrs) - 1:
                    continue
                if c is X.FALSE:
                    continue
                out = rds[k](loc)
                continue
            if c is X.FALSE:
                continue
            if c is X.TRUE:
                out = rds[k](loc)
            else:
                out = X.ite(c, rds[k](loc), out)
        if out is None:
            raise IndexError("index out of bounds")
        return out
    sh = list(arrs[0].shp)
    sh[axis] = total
    return SymArray.make(sh, fn)


# ------------------------------------------------------------------ reductions
def red_axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    return tuple(sorted(x % a.ndim for x in axis))


def reduce_sum(a, axis=None):
    a = as_array(a)
    ax = red_axes(a, axis)
    rd = a.reader()
    keep = [k for k in range(a.ndim) if k not in ax]

    def fn(ix):
        it = dict(zip(keep, ix))
        bvs = {k: X.fresh("k", "int") for k in ax}
        full = tuple(bvs[k] if k in bvs else it[k] for k in range(a.ndim))
        if a.concrete():
            tot = []
            for js in itertools.product(*[range(cint(a.shp[k])) for k in ax]):
                m = dict(zip(ax, js))
                tot.append(rd(tuple(X.const(m[k]) if k in m else it[k] for k in range(a.ndim))))
            return X.add(*tot) if tot else X.ZERO
        e = within(rd, full, [(v, a.shp[k]) for k, v in bvs.items()])
        for k in reversed(ax):
            n = a.shp[k]
            c = cint(n)
            if c is not None:
                e = X.add(*[X.subst(e, {bvs[k]: X.const(i)}) for i in range(c)]) if c else X.ZERO
            else:
                e = split_sum(bvs[k], e, n, [(v, a.shp[q]) for q, v in bvs.items() if q < k])
        return e
    if not keep:
        return Sym(fn(()))
    return SymArray.make([a.shp[k] for k in keep], fn)


def within(rd, full, bounds):
    """the term at indices known to lie in range"""
    en = G.ENG
    if en is None:
        return num(rd(full))
    saved = en.ctx
    en.ctx = saved.add(*[h for v, n in bounds for h in (X.le(X.ZERO, v), X.lt(v, n))])
    try:
        e = num(rd(full))
        s = Simp(en.ctx)
        return s(e) if any(x.op == "ite" for x in X.subterms(e)) else e
    finally:
        en.ctx = saved


def split_sum(v, e, n, others, depth=0):
    """sum of e for 0 <= v < n; cut where a condition v < m in the body changes (0 <= m <= n)"""
    en = G.ENG
    if en is not None and depth < 4:
        for x in X.subterms(e):
            if x.op != "ite" or x.args[0].op not in ("lt", "le") or v not in x.args[0].args:
                continue
            c = x.args[0]
            m = c.args[1] if c.args[0] is v else c.args[0]
            if c.args[0] is v and c.op == "le" or c.args[1] is v and c.op == "lt":
                m = simp_int(X.add(m, X.ONE))           # v <= m, m < v
            if v in X.subterms(m) or any("β" in str(y.args[0]) for y in X.subterms(m) if y.op == "var") or \
                    en.ctx.decide(X.le(X.ZERO, m)) is not True or en.ctx.decide(X.le(m, n)) is not True:
                continue
            out = []
            for lo, ln in ((X.ZERO, m), (m, simp_int(X.sub(n, m)))):
                saved = en.ctx
                en.ctx = saved.add(*[h for w, k in others + [(v, ln)] for h in (X.le(X.ZERO, w), X.lt(w, k))])
                try:
                    part = Simp(en.ctx)(X.subst(e, {v: simp_int(X.add(v, lo))}))
                finally:
                    en.ctx = saved
                out.append(split_sum(v, part, ln, others, depth + 1))
            return X.add(*out)
    return X.summation(v, e, n)


def num(e):
    return X.ite(e, X.ONE, X.ZERO) if e.sort == "bool" else e


def count(a, axis):
    return X.mul(*[a.shp[k] for k in red_axes(a, axis)]) if a.ndim else X.ONE


def reduce_mean(a, axis=None):
    a = as_array(a)
    n = count(a, axis)
    s = reduce_sum(a, axis)
    return s / Sym(n)


def reduce_var(a, axis=None, ddof=0):
    a = as_array(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("var with axis")
    cut = getattr(G.ENG, "cut_var", None)
    if cut is not None and axis is None:
        r = cut(a, ddof)
        if r is not None:
            return r
    m = reduce_mean(a, None)
    n = count(a, None)
    return reduce_sum((a - m) ** 2, None) / (Sym(n) - ddof)


def reduce_std(a, axis=None, ddof=0):
    return Sym(X.sqrt(lift(reduce_var(a, axis, ddof))))


def reduce_ext(a, axis, which):
    a = as_array(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("max with axis")
    if a.concrete():
        els = [a.get(*[X.const(i) for i in ix])
               for ix in itertools.product(*[range(cint(s)) for s in a.shp])]
        r = els[0]
        for e in els[1:]:
            r = X.max_(r, e) if which == "max" else X.min_(r, e)
        return Sym(r)
    bvs = [X.var(f"ι{k}", "int") for k in range(a.ndim)]
    e = a.get(*bvs)
    for b in reversed(bvs):
        e = X.lam(b, e)
    return Sym(X.mk("ext", (X.const(0 if which == "max" else 1), e) + tuple(a.shp), "real"))


def reduce_bool(a, which):
    a = as_array(a)
    if a.concrete():
        els = [a.get(*[X.const(i) for i in ix])
               for ix in itertools.product(*[range(cint(s)) for s in a.shp])]
        els = [truth(e) for e in els]
        return mkbool((X.or_ if which == "any" else X.and_)(*els))
    bvs = [X.var(f"ι{k}", "int") for k in range(a.ndim)]
    e = truth(a.get(*bvs))
    if which == "any":
        e = X.not_(e)
    for b in reversed(bvs):
        e = X.lam(b, e)
    r = X.mk("forall", (e,) + tuple(a.shp), "bool")
    return mkbool(r if which == "all" else X.not_(r))


def truth(e):
    return e if e.sort == "bool" else X.not_(X.eq(e, X.ZERO))


def cumsum(a, axis=None):
    a = as_array(a)
    if axis is None:
        a = flat(a)
        axis = 0
    axis %= a.ndim
    rd = a.reader()

    def fn(ix):
        k = X.fresh("k", "int")
        full = tuple(k if d == axis else ix[d] for d in range(a.ndim))
        up = X.add(ix[axis], X.ONE)
        c = cint(up)
        if c is not None:
            return X.add(*[rd(tuple(X.const(i) if d == axis else ix[d] for d in range(a.ndim))) for i in range(c)])
        return X.summation(k, rd(full), up)
    return SymArray.make(a.shp, fn)


# ------------------------------------------------------------------ ranges
class SymRange:
    """range / arange with a symbolic bound"""

    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step

    def item(self, c):
        return X.add(self.start, X.mul(X.const(self.step), c))

    def array(self):
        return SymArray.make((self.n,), lambda ix: self.item(ix[0]), intd=True)

    def symlen(self):
        return pyint(self.n)

    def __len__(self):
        raise Unsupported("len() of a symbolic range")

    def __iter__(self):
        raise Unsupported("untransformed iteration over a symbolic range")

    def rev(self):
        return SymRange(self.item(X.sub(self.n, X.ONE)), self.n, -self.step)

    def __reversed__(self):
        return self.rev()

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start is None and s.stop is None and s.step == -1:
            return self.rev()
        if isinstance(s, slice):
            a = self.array()[s]
            return a
        n = self.array()[s]
        return n


def range_len(a, b, step):
    """length term of range(a, b, step)"""
    d = X.sub(b, a) if step > 0 else X.sub(a, b)
    st = abs(step)
    c = cint(d)
    if c is not None:
        return X.const(max(0, -(-c // st)))
    if st != 1:
        raise Unsupported("symbolic range with a stride")
    d = simp_int(d)
    r = G.ENG.ctx.decide(X.ge(d, X.ZERO))
    if r is None:
        r = G.ENG.branch(X.ge(d, X.ZERO))
    return d if r else X.ZERO
