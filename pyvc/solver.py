"""Proof contexts and the prover."""
import random
import time
from fractions import Fraction
import z3
import mpmath as mp
from . import expr as X
from .expr import E, names_in
from .norm import Norm, padd, pscale, F1
from .numeval import NumEval, NoEval

STATS = {"z3_calls": 0, "z3_time": 0.0, "norm_calls": 0, "norm_time": 0.0}


class Theory:
    """Shared by all contexts of one check: the normaliser, the z3
    translation, definitions of spec functions and sampling domains."""

    def __init__(self):
        self.N = Norm()
        self.bools = {}        # predicate name -> callable(*args E) -> formula or None
        self.unfolds = {}      # fname -> callable(*args E) -> E
        self.eager = ()        # names unfolded before (and without) the others
        self.specnum = {}      # fname -> python callable for numeric evaluation
        self.bounds = {}       # fname -> callable(app E) -> list of facts
        self.facts = []        # global facts (E bool)
        self.domain = {}       # var -> callable(rng) -> number
        self.zv = {}
        self.zax = {}
        self.axdone = set()
        self.extra = []

    # ---------------------------------------------------------- z3
    def zatom(self, a):
        r = self.zv.get(a.id)
        if r is None:
            if a.isint:
                r = z3.Int(f"a{a.id}")
            else:
                r = z3.Real(f"a{a.id}")
            self.zv[a.id] = r
            ax = []
            if a.pos:
                ax.append(r > 0)
            if a.kind == "N":
                ax.append(z3.And(r > 0, r < 1))
            elif a.kind == "sum" and not a.cplx:
                p = self.zpoly(a.data, ax)
                if p is not None:
                    ax.append(r == p)
            elif a.kind == "pp":
                p = self.zpoly(a.data, ax)
                if p is not None:
                    ax.append(r == z3.If(p > 0, p, 0))
            elif a.kind == "exp" and not a.cplx:
                p = self.zpoly({a.data: F1}, ax)
                if p is not None:
                    ax.append(z3.And(z3.Implies(p > 0, r > 1), z3.Implies(p < 0, r < 1), z3.Implies(p == 0, r == 1)))
            elif a.kind == "prime":
                ax.append(r == a.data)
            elif a.kind == "pi":
                ax += [r > z3.Q(314159, 100000), r < z3.Q(31416, 10000)]
            elif a.kind.startswith("app:"):
                fn = self.bounds.get(a.kind[4:])
                if fn:
                    for f in fn(a.e):
                        ax.append(self.zbool(f, ax))
            self.zax[a.id] = ax
        return r

    def zpoly(self, p, ax):
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c)) if c.denominator != 1 else z3.IntVal(int(c))
            for a, e in m:
                at = self.N.atoms[a]
                if at.cplx:
                    return None
                v = self.zatom(at)
                ax.append(("atom", a))
                if e.denominator == 1 and e > 0:
                    for _ in range(int(e)):
                        t = t * v
                elif e.denominator == 1:
                    k = ("inv", a)
                    iv = self.zv.get(k)
                    if iv is None:
                        iv = z3.Real(f"inv{a}")
                        self.zv[k] = iv
                        self.zax[k] = [iv * v == 1]
                        if at.pos:
                            self.zax[k].append(iv > 0)
                    ax.append(("atom", k))
                    for _ in range(int(-e)):
                        t = t * iv
                else:
                    k = ("root", a, e)
                    rv = self.zv.get(k)
                    if rv is None:
                        rv = z3.Real(f"root{a}_{e.numerator}_{e.denominator}".replace("-", "m"))
                        self.zv[k] = rv
                        l = [rv > 0] if at.pos else [rv >= 0]
                        if e.numerator == 1 and e.denominator <= 4:
                            w = rv
                            for _ in range(e.denominator - 1):
                                w = w * rv
                            l.append(w == v)
                        elif e.numerator == -1 and e.denominator <= 4:
                            w = rv
                            for _ in range(e.denominator - 1):
                                w = w * rv
                            l.append(w * v == 1)
                        self.zax[k] = l
                    ax.append(("atom", k))
                    t = t * rv
            ts.append(t)
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zbool(self, e, ax):
        op, a = e.op, e.args
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "and":
            return z3.And(*[self.zbool(x, ax) for x in a])
        if op == "or":
            return z3.Or(*[self.zbool(x, ax) for x in a])
        if op == "not":
            return z3.Not(self.zbool(a[0], ax))
        if op in ("lt", "le", "eq"):
            if a[0].sort == "complex" or a[1].sort == "complex":
                return self.zopaque(e)
            p = self.N.norm(X.sub(a[0], a[1]))
            # multiply by a positive monomial to clear negative exponents of positive atoms
            p = self.clear_pos(p)
            t = self.zpoly(p, ax)
            if t is None:
                return self.zopaque(e)
            return t < 0 if op == "lt" else t <= 0 if op == "le" else t == 0
        if op == "ite":
            c = self.zbool(a[0], ax)
            return z3.If(c, self.zbool(a[1], ax), self.zbool(a[2], ax))
        return self.zopaque(e)

    def clear_pos(self, p):
        mins = {}
        for m in p:
            for a, e in m:
                if self.N.atoms[a].pos and e < mins.get(a, 0):
                    mins[a] = e
        # also divide by common positive factors
        if p:
            first = dict(next(iter(p)))
            for a in list(first):
                if self.N.atoms[a].pos:
                    lo = min(dict(m).get(a, Fraction(0)) for m in p)
                    if lo > 0:
                        mins[a] = lo
        if not mins:
            return p
        inv = tuple(sorted((a, -e) for a, e in mins.items()))
        return self.N.pmul(p, {inv: F1})

    def zopaque(self, e):
        k = ("b", e)
        r = self.zv.get(k)
        if r is None:
            r = z3.Bool(f"b{e.id}")
            self.zv[k] = r
        return r

    def close_ax(self, ax):
        out = []
        seen = set()
        work = list(ax)
        while work:
            x = work.pop()
            if isinstance(x, tuple):
                if x[1] in seen:
                    continue
                seen.add(x[1])
                work.extend(self.zax.get(x[1], ()))
            else:
                out.append(x)
        # cross axioms
        atoms = [self.N.atoms[a] for a in seen if isinstance(a, int)]
        Ns = [a for a in atoms if a.kind == "N"]
        ex = [a for a in atoms if a.kind == "exp"]
        if 1 < len(Ns) <= 4:
            for i in range(len(Ns)):
                for j in range(i):
                    l = []
                    p = self.zpoly(padd(Ns[i].data, pscale(Ns[j].data, -F1)), l)
                    if p is not None:
                        x, y = self.zv[Ns[i].id], self.zv[Ns[j].id]
                        out.append(z3.And(z3.Implies(p > 0, x > y), z3.Implies(p < 0, x < y)))
        return out


_id = [0]


class Ctx:
    """A conjunction of hypotheses."""

    def __init__(self, th, hyps=(), parent=None):
        self.th = th
        self.hyps = list(hyps)
        self.eqs = {}
        self.cache = {}
        self.ints = frozenset()
        for h in self.hyps:
            self._eq(h)
            self._squeeze(h)

    def _eq(self, h):
        """var elimination from an integer equality hypothesis"""
        if h.op == "eq" and h.args[0].sort == "int" and h.args[1].sort == "int":
            x, y = (self.rw(a) for a in h.args)
            p = self.th.N.norm(X.sub(x, y))
            cands = []
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    at = self.th.N.atoms[m[0][0]]
                    if at.kind == "var" and at.e.sort == "int":
                        rest = {k: v for k, v in p.items() if k != m}
                        r = self.th.N.poly_e(pscale(rest, -1 / c))
                        if at.e not in r.fv:
                            cands.append((at.e.id, at.e, r))
            if cands:
                _, v, r = max(cands, key=lambda t: t[0])
                self.eqs = {k: X.subst(w, {v: r}) for k, w in self.eqs.items()}
                self.eqs[v] = r
        elif h.op == "eq" and {h.args[0].sort, h.args[1].sort} <= {"int", "real"}:
            x, y = (self.rw(a) for a in h.args)
            p = self.th.N.norm(X.sub(x, y))
            cands = []
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1:
                    at = self.th.N.atoms[m[0][0]]
                    if at.kind == "var" and at.e.sort == "real":
                        r = self.th.N.poly_e(pscale({k: v for k, v in p.items() if k != m}, -1 / c))
                        if at.e in r.fv or (at.e in X.POSVARS and not (X.is_const(r) and X.cval(r) > 0)):
                            continue
                        cands.append((X.is_const(r), at.e.id, at.e, r))
            if cands:
                _, _, v, r = max(cands, key=lambda t: t[:2])
                self.eqs = {k: X.subst(w, {v: r}) for k, w in self.eqs.items()}
                self.eqs[v] = r
        elif h.op == "and":
            for a in h.args:
                self._eq(a)

    def _squeeze(self, h):
        """a <= b and b <= a over the integers give a = b"""
        if h.op == "not" and h.args[0].op in ("lt", "le"):
            g = h.args[0]
            h = (X.le if g.op == "lt" else X.lt)(g.args[1], g.args[0])
        if h.op not in ("lt", "le") or h.args[0].sort != "int" or h.args[1].sort != "int":
            return
        p = self.th.N.norm(X.add(X.sub(h.args[0], h.args[1]), X.ONE if h.op == "lt" else X.ZERO))
        k = frozenset(p.items())
        if k in self.ints:
            return
        self.ints = self.ints | {k}
        if frozenset((m, -c) for m, c in p.items()) in self.ints and p:
            e = X.eq(self.th.N.poly_e(p), X.ZERO)
            if e.op == "eq":
                self._eq(e)

    def rw(self, e):
        return X.subst(e, self.eqs) if self.eqs else e

    def add(self, *hs):
        c = Ctx.__new__(Ctx)
        c.th = self.th
        c.hyps = list(self.hyps)
        c.eqs = dict(self.eqs)
        c.cache = {}
        c.ints = self.ints
        for h in hs:
            if h is X.TRUE:
                continue
            if h.op == "and":
                for x in h.args:
                    if x not in c.hyps:
                        c.hyps.append(x)
                        c._squeeze(x)
            elif h not in c.hyps:
                c.hyps.append(h)
                c._squeeze(h)
            c._eq(h)
        return c

    def linear(self, e, memo={}):
        """an integer comparison without products of variables"""
        if e.op in ("and", "or", "not"):
            return all(self.linear(x) for x in e.args)
        r = memo.get(e)
        if r is None:
            r = e.op in ("true", "false")
            if e.op in ("lt", "le", "eq") and pure_int(e):
                p = self.th.N.norm(X.sub(e.args[0], e.args[1]))
                r = all(len(m) <= 1 and all(x == 1 for _, x in m) for m in p)
                r = r and all(a.op in ("var", "const") for a in X.subterms(self.th.N.poly_e(p)) if a.op not in ("add", "mul", "sub", "neg"))
            memo[e] = r
        return r

    def solver(self, goalneg, timeout, intonly=False):
        s = z3.Solver()
        s.set("timeout", timeout)
        ax = []
        hs = [h for h in self.hyps if pure_int(h)] if intonly else self.hyps
        if intonly == "linear":
            hs = [h for h in hs if self.linear(h)]
        bs = [self.th.zbool(self.rw(h), ax) for h in hs]
        if not intonly:
            bs += [self.th.zbool(self.rw(h), ax) for h in self.th.facts]
        if goalneg is not None:
            bs.append(self.th.zbool(self.rw(goalneg), ax))
        bs += self.th.close_ax(ax)
        s.add(*bs)
        return s

    def check(self, goalneg=None, timeout=800):
        t0 = time.time()
        try:
            if goalneg is not None and pure_int(goalneg):
                # index reasoning needs only the integer hypotheses (dropping hypotheses is sound)
                if self.linear(goalneg):
                    r = self.solver(goalneg, timeout, "linear").check()
                    if r != z3.unsat and not all(self.linear(h) for h in self.hyps if pure_int(h)):
                        r = self.solver(goalneg, min(timeout, 150), True).check()
                else:
                    r = self.solver(goalneg, timeout, True).check()
            else:
                r = z3.unknown
                if goalneg is None:
                    r = self.solver(None, 500, True).check()
                if r != z3.unsat:
                    s = self.solver(goalneg, timeout)
                    r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t0
        return r

    def akey(self, e, memo={}):
        """normal form of a real inequality: (strict?, polynomial)"""
        if e.op == "not" and e.args[0].op in ("lt", "le"):
            g = e.args[0]
            e = (X.le if g.op == "lt" else X.lt)(g.args[1], g.args[0])
        if e.op not in ("lt", "le") or pure_int(e) or any(x.op in ("ite", "lam") for x in X.subterms(e)):
            return None
        k = (id(self.th), e)
        if k not in memo:
            memo[k] = (e.op == "lt", frozenset(self.th.N.norm(X.sub(e.args[0], e.args[1])).items()))
        return memo[k]

    def known(self, c):
        """c or its negation is a hypothesis, up to the normal form of real inequalities"""
        k = self.akey(c)
        if k is None:
            return None
        if "keys" not in self.cache:
            self.cache["keys"] = {self.akey(self.rw(h)) for h in self.hyps if h.op in ("lt", "le", "not")}
        keys = self.cache["keys"]
        if k in keys or (not k[0] and (True, k[1]) in keys):
            return True
        neg = (not k[0], frozenset((m, -v) for m, v in k[1]))
        if neg in keys or (k[0] and (True, neg[1]) in keys):
            return False
        return None

    def decide(self, c, timeout=600):
        """True / False / None"""
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        c = self.rw(c)
        c = simp_const(c, self.th)
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        if c in self.hyps:
            return True
        nc = X.not_(c)
        if nc in self.hyps:
            return False
        k = c
        if k in self.cache:
            return self.cache[k]
        r = self.known(c)
        if r is not None:
            self.cache[k] = r
            return r
        if c.op in ("and", "or"):
            # index conditions first; what they leave open is decided alone
            dom = c.op == "or"
            rest = []
            for x in sorted(c.args, key=lambda x: not pure_int(x)):
                d = self.decide(x, timeout) if pure_int(x) else self.known(self.rw(x))
                if d is dom:
                    self.cache[k] = dom
                    return dom
                if d is None:
                    rest.append(x)
            if not rest:
                self.cache[k] = not dom
                return not dom
            if len(rest) < len(c.args):
                r = self.decide((X.or_ if dom else X.and_)(*rest), timeout)
                self.cache[k] = r
                return r
        if c.op == "forall":
            _, hs, e = opened(c)
            c2 = self.add(*hs)
            if not c2.feasible() or c2.decide(Simp(c2)(e)) is True:
                self.cache[k] = True
                return True
        if self.check(nc, timeout) == z3.unsat:
            r = True
        elif self.check(c, timeout) == z3.unsat:
            r = False
        self.cache[k] = r
        return r

    def implied(self, c, timeout=800):
        if c.op == "and":
            return all(self.implied(x, timeout) for x in c.args)
        if c in self.hyps:
            return True
        c = simp_const(self.rw(c), self.th)
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return self.feasible() is False
        if ("imp", c) in self.cache:
            return self.cache[("imp", c)]
        r = self.check(X.not_(c), timeout) == z3.unsat
        self.cache[("imp", c)] = r
        return r

    def feasible(self):
        if "feas" not in self.cache:
            self.cache["feas"] = self.check(None, 250) != z3.unsat
        return self.cache["feas"]


def pure_int(e, memo={}):
    """a boolean combination of comparisons of index terms"""
    r = memo.get(e)
    if r is None:
        if e.op in ("and", "or", "not"):
            r = all(pure_int(x) for x in e.args)
        elif e.op in ("lt", "le", "eq"):
            r = all(int_term(x) for x in e.args)
        else:
            r = e.op in ("true", "false")
        memo[e] = r
    return r


def int_term(e):
    if e.op in ("var", "const"):
        return e.sort == "int"
    return e.op in ("add", "mul", "pp") and e.sort == "int" and all(int_term(x) for x in e.args)


def simp_const(c, th):
    """evaluate comparisons whose difference normalises to a constant"""
    op, a = c.op, c.args
    if op in ("lt", "le", "eq"):
        if a[0].sort == "bool":
            return c
        try:
            p = th.N.norm(X.sub(a[0], a[1]))
        except RecursionError:
            return c
        if not p:
            return X.FALSE if op == "lt" else X.TRUE
        if len(p) == 1 and () in p:
            v = p[()]
            return X.TRUE if (v < 0 if op == "lt" else v <= 0 if op == "le" else False) else X.FALSE
        if op != "eq" and len(p) <= 40:
            s = {1 if v > 0 else -1 for v in p.values()}
            if len(s) == 1 and all(th.N.atoms[x].pos for m in p for x, _ in m):
                return X.TRUE if s == {-1} else X.FALSE
        if op == "eq" and all(th.N.atoms[x].pos for m in p for x, _ in m) and \
                len({1 if v > 0 else -1 for v in p.values()}) == 1:
            return X.FALSE
        return c
    if op == "and":
        return X.and_(*[simp_const(x, th) for x in a])
    if op == "or":
        return X.or_(*[simp_const(x, th) for x in a])
    if op == "not":
        return X.not_(simp_const(a[0], th))
    if op == "app" and a[0] in th.bools:
        r = th.bools[a[0]](*a[1:])
        return c if r is None else simp_const(r, th)
    return c


def opened(fa):
    """(fresh variables, their range, body) of a universally quantified formula"""
    e, ns = fa.args[0], fa.args[1:]
    vs, hs = [], []
    for n in ns:
        v = X.fresh("q", "int")
        vs.append(v)
        hs += [X.le(X.ZERO, v), X.lt(v, n)]
        e = X.lam_apply(e, v)
    return vs, hs, e


def instances(ctx, goal):
    """quantified hypotheses at the index terms the goal suggests"""
    out = []
    for h in ctx.hyps:
        if h.op != "forall":
            continue
        vs, hs, body = opened(h)
        for p in X.subterms(body):
            if p.op != "app" or not set(vs) <= set(p.args[1:]):
                continue
            for q in X.subterms(goal):
                if q.op == "app" and q.args[0] == p.args[0] and len(q.args) == len(p.args):
                    m = {v: y for v, y in zip(p.args[1:], q.args[1:]) if v in vs}
                    if all(y is m.get(x, x) for x, y in zip(p.args[1:], q.args[1:])):
                        f = X.implies(X.subst(X.and_(*hs), m), X.subst(body, m))
                        if f not in out and f not in ctx.hyps:
                            out.append(f)
    return out


class Simp:
    """Simplify a term under a context: resolve ite/pp that the context
    decides; report an undecided condition to split on."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.open = None
        self.openpp = None
        self.found = []         # integer equations the context implies

    def __call__(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        r = self.go(e)
        self.memo[e] = r
        return r

    def go(self, e):
        op, a = e.op, e.args
        if op in ("var", "const", "pi", "I", "true", "false"):
            return e
        if op == "ite":
            c = self(a[0])
            d = self.ctx.decide(c)
            if d is True:
                if c.op == "eq" and c.args[0].sort == "int":
                    self.found.append(c)
                return self(a[1])
            if d is False:
                return self(a[2])
            x, y = self(a[1]), self(a[2])
            if x is y:
                return x
            if self.open is None or c.depth < self.open.depth:
                self.open = c
            return X.ite(c, x, y)
        if op == "lam":
            return e
        if op == "sum":
            return self.sum(e)
        if op == "pp":
            x = self(a[0])
            if is_indexy(x, self.ctx.th):
                d = self.ctx.decide(X.ge(x, X.ZERO))
                if d is True:
                    return x
                d = self.ctx.decide(X.le(x, X.ZERO))
                if d is True:
                    return X.ZERO
            elif x.op != "const":
                if self.openpp is None:
                    self.openpp = x
            return X.pp(x)
        return X.rebuild(e, [self(x) if isinstance(x, E) else x for x in a])

    def sum(self, e):
        l, n = e.args
        n = self(n)
        bv, body = l.args
        k = X.fresh("k", "int")
        b = X.subst(body, {bv: k})
        c2 = self.ctx.add(X.le(X.ZERO, k), X.lt(k, n))
        s2 = Simp(c2)
        b2 = s2(b)
        if s2.open is not None and b2.op == "ite":
            c = b2.args[0]
            # sum of ite(k < m, f, g)
            m = split_point(c, k, self.ctx.th)
            if m is not None:
                lowtrue, m = m
                if self.ctx.implied(X.and_(X.le(X.ZERO, m), X.le(m, n))):
                    f, g = (b2.args[1], b2.args[2]) if lowtrue else (b2.args[2], b2.args[1])
                    return self(X.add(X.summation(k, f, m),
                                      X.summation(k, X.subst(g, {k: X.add(k, m)}), X.sub(n, m))))
        if self.ctx.decide(X.eq(n, X.ZERO)) is True:
            return X.ZERO
        return X.summation(k, b2, n)


def split_point(c, k, th):
    """c is (k < m) or (m <= k): return (True, m) / (False, m)"""
    if c.op in ("lt", "le"):
        p = th.N.norm(X.sub(c.args[0], c.args[1]))
        ka = th.N.a_var(k)
        m = ((ka.id, F1),)
        co = p.get(m)
        if co is None or abs(co) != 1:
            return None
        rest = {a: v for a, v in p.items() if a != m}
        r = th.N.poly_e(pscale(rest, -co))
        if k in r.fv:
            return None
        if co == 1:     # k < r  /  k <= r
            return (True, r if c.op == "lt" else X.add(r, X.ONE))
        # -k + rest < 0 : k > r  / k >= r
        return (False, X.add(r, X.ONE) if c.op == "lt" else r)
    return None


def is_indexy(x, th):
    return x.sort == "int"


class Result:
    def __init__(self, status, how="", env=None, detail=""):
        self.status, self.how, self.env, self.detail = status, how, env, detail

    def __repr__(self):
        return f"<{self.status} {self.how} {self.detail}>"


class Prover:
    def __init__(self, th, seed=1, refute_n=24, budget=20.0):
        self.th = th
        self.rng = random.Random(seed)
        self.refute_n = refute_n
        self.budget = budget
        self.deadline = None

    # ------------------------------------------------------------ entry
    def prove(self, ctx, goal, refute=True, unfold=2, budget=None):
        self.deadline = time.time() + (budget or self.budget)
        t0 = time.time()
        try:
            ok = self.pr(ctx, goal, unfold, 0)
        except RecursionError:
            ok = False
        STATS["norm_calls"] += 1
        STATS["norm_time"] += time.time() - t0
        if ok:
            return Result("proved", "norm/z3")
        if refute:
            env = self.refute(ctx, goal)
            if env is not None:
                return Result("refuted", "numeric", env)
        return Result("unknown")

    def pr(self, ctx, goal, unfold, depth):
        if goal is X.TRUE:
            return True
        if time.time() > self.deadline:
            return False
        op, a = goal.op, goal.args
        if op == "and":
            return all(self.pr(ctx, g, unfold, depth) for g in a)
        if op == "or":
            # prove one disjunct assuming the negation of the others
            for i, g in enumerate(a):
                c2 = ctx.add(*[X.not_(x) for j, x in enumerate(a) if j != i])
                if self.pr(c2, g, unfold, depth):
                    return True
            return False
        if op == "eq" and a[0].sort != "bool":
            return self.pr_eq(ctx, a[0], a[1], unfold, depth)
        if op in ("lt", "le"):
            return self.pr_ineq(ctx, goal, unfold, depth)
        if op == "forall":
            _, hs, e = opened(goal)
            return self.pr(ctx.add(*hs), e, unfold, depth)
        if ctx.implied(goal):
            return True
        ins = instances(ctx, goal)
        return bool(ins) and self.pr(ctx.add(*ins), goal, unfold, depth)

    def simp2(self, ctx, *es):
        s = Simp(ctx)
        out = [s(ctx.rw(e)) for e in es]
        return out, s

    def pr_eq(self, ctx, x, y, unfold, depth):
        N = self.th.N
        if N.equal(x, y):
            return True
        if ctx.eqs and N.equal(ctx.rw(x), ctx.rw(y)):
            return True
        (x, y), s = self.simp2(ctx, x, y)
        if N.equal(x, y):
            return True
        if s.found:
            c2 = ctx.add(*s.found)
            if len(c2.eqs) > len(ctx.eqs):
                ctx = c2
                (x, y), s = self.simp2(ctx, x, y)
                if N.equal(x, y):
                    return True
        if depth > 14:
            return False
        if s.open is not None:
            return self.split(ctx, s.open, lambda c: self.pr_eq(c, x, y, unfold, depth + 1))
        only = (names_in(x) | names_in(y)) & set(self.th.eager)
        if only:
            x2, y2 = self.unfold(x, None, only), self.unfold(y, None, only)
            if (x2 is not x or y2 is not y) and self.pr_eq(ctx, x2, y2, unfold, depth + 1):
                return True
        if unfold > 0:
            y2 = self.unfold(y)
            if y2 is not y and self.pr_eq(ctx, x, y2, unfold - 1, depth + 1):
                return True
            x2 = self.unfold(x)
            if x2 is not x:
                if self.pr_eq(ctx, x2, y2, unfold - 1, depth + 1):
                    return True
        if s.openpp is not None and depth < 8:
            x0 = s.openpp
            def k(c):
                return self.pr_eq(c, x, y, 0, depth + 1)
            # replace pp by cases
            for sg in (True, False):
                cond = X.ge(x0, X.ZERO) if sg else X.le(x0, X.ZERO)
                c2 = ctx.add(cond)
                if not c2.feasible():
                    continue
                rep = x0 if sg else X.ZERO
                m = {X.pp(x0): rep}
                if not self.pr_eq(c2, replace(x, m), replace(y, m), 0, depth + 1):
                    return False
            return True
        if not ctx.feasible():
            return True
        if x.sort == "complex" or y.sort == "complex":
            return False
        if self.quick_refute(ctx, X.eq(x, y)):
            return False
        return ctx.check(X.not_(X.eq(x, y)), 2000) == z3.unsat

    def quick_refute(self, ctx, goal, good=3):
        """cheap search for a counterexample, to avoid hopeless solver calls"""
        rng = self.rng
        self.rng = random.Random(7)
        try:
            g = 0
            for i in range(40):
                env = self.sample_env(ctx, goal)
                if any(self.holds(env, h) is not True for h in ctx.hyps):
                    continue
                g += 1
                if self.violates(env, goal):
                    return True
                if g >= good:
                    break
            return False
        finally:
            self.rng = rng

    def pr_ineq(self, ctx, goal, unfold, depth):
        if ctx.implied(goal):
            return True
        a = goal.args
        (x, y), s = self.simp2(ctx, *a)
        g = X.lt(x, y) if goal.op == "lt" else X.le(x, y)
        if depth > 12:
            return False
        if s.open is not None:
            return self.split(ctx, s.open, lambda c: self.pr_ineq(c, g, unfold, depth + 1))
        if ctx.check(X.not_(g), 4000) == z3.unsat:
            return True
        if unfold > 0:
            x2, y2 = self.unfold(x), self.unfold(y)
            if x2 is not x or y2 is not y:
                g2 = X.lt(x2, y2) if goal.op == "lt" else X.le(x2, y2)
                return self.pr_ineq(ctx, g2, unfold - 1, depth + 1)
        return False

    def split(self, ctx, c, k):
        for h in (c, X.not_(c)):
            c2 = ctx.add(h)
            if not c2.feasible():
                continue
            if not k(c2):
                return False
        return True

    def unfold(self, e, memo=None, only=None):
        if memo is None:
            memo = {}
        r = memo.get(e)
        if r is not None:
            return r
        if e.op == "app" and e.args[0] in self.th.unfolds:
            r = self.th.unfolds[e.args[0]](*e.args[1:]) if not only or e.args[0] in only else e
            if r is None:
                r = e
        elif e.op in ("var", "const", "lam", "pi", "I", "true", "false"):
            r = e
        else:
            args = [self.unfold(x, memo, only) if isinstance(x, E) else x for x in e.args]
            r = e if all(p is q for p, q in zip(args, e.args)) else X.rebuild(e, args)
        memo[e] = r
        return r

    # ------------------------------------------------------------ refutation
    def sample_env(self, ctx, goal, extra=()):
        fv = set()
        for h in list(ctx.hyps) + [goal] + list(extra):
            fv |= h.fv
        env = {}
        for v in sorted(fv, key=lambda v: v.args[0]):
            d = self.th.domain.get(v)
            if d is not None:
                x = d(self.rng)
                env[v] = int(x) if v.sort == "int" else mp.mpf(x)
        for v in sorted(fv, key=lambda v: v.args[0]):
            if v not in env:
                if v.sort == "int":
                    env[v] = self.rng.randint(0, 6)
                elif v.sort == "complex":
                    env[v] = mp.mpc(self.rng.uniform(-1, 1), self.rng.uniform(-1, 1))
                elif v in X.POSVARS:
                    env[v] = mp.mpf(round(self.rng.uniform(0.1, 2.0), 4))
                else:
                    env[v] = mp.mpf(round(self.rng.uniform(-1.5, 1.5), 4))
        for v, r in ctx.eqs.items():
            if v in env:
                try:
                    env[v] = self.numeval(env)(r)
                except NoEval:
                    pass
        return env

    def consts(self, es):
        """numbers the terms compare with"""
        out, seen = set(), set()

        def walk(e, d):
            if e in seen or d > 8 or len(seen) > 4000:
                return
            seen.add(e)
            for x in e.args:
                if isinstance(x, E):
                    if x.op == "const":
                        try:
                            c = float(x.args[0])
                        except (TypeError, ValueError):
                            continue
                        if c != 0 and abs(c) < 1e6:
                            out.add(abs(c))
                    else:
                        walk(x, d + 1)
        for e in es:
            walk(e, 0)
        return sorted(out)

    def wide_env(self, ctx, goal, cs, extra=()):
        """a sample beyond the usual ranges: around the numbers the path conditions compare with"""
        env = self.sample_env(ctx, goal, extra)
        rng = self.rng
        for v in sorted(env, key=lambda v: v.args[0]):
            if v.sort == "complex" or v in ctx.eqs or rng.random() < 0.5:
                continue
            x = env[v]
            if cs and rng.random() < 0.7:
                x = rng.choice(cs) * rng.choice((.3, .9, 1.1, 1.5, 2.5))
                if v.sort == "int" and rng.random() < 0.5:
                    x = rng.choice(cs) + rng.randint(-2, 3)
            else:
                x = abs(float(x)) * 10 ** rng.uniform(-1.5, 1.5)
            if v.sort == "int":
                env[v] = max(int(x), 0)
            else:
                neg = v not in X.POSVARS and env[v] < 0
                env[v] = mp.mpf(float("%.4g" % (-x if neg else x)))
        for v, r in ctx.eqs.items():
            if v in env:
                try:
                    env[v] = self.numeval(env)(r)
                except NoEval:
                    pass
        return env

    def numeval(self, env):
        def default(v):
            d = self.th.domain.get(v)
            if d is not None:
                x = d(self.rng)
                return int(x) if v.sort == "int" else mp.mpf(x)
            if v.sort == "int":
                return self.rng.randint(0, 6)
            if v in X.POSVARS:
                return mp.mpf(round(self.rng.uniform(0.1, 2.0), 4))
            return mp.mpf(round(self.rng.uniform(-1.5, 1.5), 4)) if v.sort == "real" else None
        return NumEval(env, self.th.specnum, default if self.th.unfolds else None, self.th.unfolds)

    def holds(self, env, e):
        try:
            return self.numeval(env)(e)
        except NoEval:
            return None

    def witness(self, ctx, extra=(), tries=400, model=True):
        """a sample environment satisfying the hypotheses (or None)"""
        goal = X.TRUE
        for i in range(tries):
            env = self.sample_env(ctx, goal, extra)
            if all(self.holds(env, h) is True for h in ctx.hyps):
                return env
        if model:
            cs = self.consts(ctx.hyps)
            for i in range(tries):
                env = self.wide_env(ctx, goal, cs, extra)
                if all(self.holds(env, h) is True for h in ctx.hyps):
                    return env
        return self.model_env(ctx, extra) if model else None

    def model_env(self, ctx, extra=()):
        """try to use a z3 model for the variables that occur as atoms"""
        try:
            for t in range(6):
                base = self.sample_env(ctx, X.TRUE, extra)
                s = ctx.solver(None, 2000)
                # soft-fix most variables to their sampled values
                soft = []
                vs = [v for v in base if ("E", v) in self.th.N.key]
                self.rng.shuffle(vs)
                s.push()
                if s.check() != z3.sat:
                    return None
                for v in vs:
                    at = self.th.N.key[("E", v)]
                    if at.id not in self.th.zv:
                        continue
                    zval = self.th.zv[at.id]
                    s.push()
                    val = base[v]
                    s.add(zval == (int(val) if v.sort == "int" else z3.RealVal(str(Fraction(str(mp.nstr(val, 12)))))))
                    if s.check() != z3.sat:
                        s.pop()
                if s.check() != z3.sat:
                    continue
                m = s.model()
                env = dict(base)
                for v in vs:
                    at = self.th.N.key[("E", v)]
                    if at.id in self.th.zv:
                        x = m.eval(self.th.zv[at.id], model_completion=True)
                        if z3.is_int_value(x):
                            env[v] = x.as_long()
                        elif z3.is_rational_value(x):
                            env[v] = mp.mpf(x.numerator_as_long()) / x.denominator_as_long()
                        elif z3.is_algebraic_value(x):
                            x = x.approx(25)
                            env[v] = mp.mpf(x.numerator_as_long()) / x.denominator_as_long()
                if all(self.holds(env, h) is True for h in ctx.hyps):
                    return env
        except z3.Z3Exception:
            return None
        return None

    def refute(self, ctx, goal, tries=None):
        tries = tries or self.refute_n
        good = 0
        for i in range(tries * 8):
            if good >= tries:
                break
            env = self.sample_env(ctx, goal)
            ok = True
            for h in ctx.hyps:
                if self.holds(env, h) is not True:
                    ok = False
                    break
            if not ok:
                continue
            good += 1
            if self.violates(env, goal):
                return env
        if good < tries:
            cs = self.consts(ctx.hyps)
            for i in range(tries * 8):
                if good >= tries:
                    break
                env = self.wide_env(ctx, goal, cs)
                if all(self.holds(env, h) is True for h in ctx.hyps):
                    good += 1
                    if self.violates(env, goal):
                        return env
        if good == 0:
            env = self.model_env(ctx, (goal,))
            if env is not None and self.violates(env, goal):
                return env
        return None

    def violates(self, env, goal):
        op, a = goal.op, goal.args
        if op == "eq" and a[0].sort != "bool":
            try:
                ev = self.numeval(env)
                x, y = ev(a[0]), ev(a[1])
            except NoEval:
                return False
            return bool(abs(x - y) > mp.mpf(10) ** -6 * (abs(x) + abs(y)) + mp.mpf(10) ** -9)
        if op in ("lt", "le"):
            try:
                ev = self.numeval(env)
                x, y = ev(a[0]), ev(a[1])
            except NoEval:
                return False
            return bool(x > y + mp.mpf(10) ** -6 * (abs(x) + abs(y)) + mp.mpf(10) ** -9)
        if op == "and":
            return any(self.violates(env, g) for g in a)
        if op == "or":
            return all(self.violates(env, g) for g in a)
        return self.holds(env, goal) is False


def replace(e, m, memo=None):
    if memo is None:
        memo = {}
    r = m.get(e)
    if r is not None:
        return r
    r = memo.get(e)
    if r is not None:
        return r
    if e.op in ("var", "const", "lam", "pi", "I", "true", "false"):
        return e
    r = X.rebuild(e, [replace(x, m, memo) if isinstance(x, E) else x for x in e.args])
    memo[e] = r
    return r
