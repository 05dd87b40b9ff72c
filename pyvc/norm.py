"""Normal forms: polynomials with rational exponents over atoms.

A poly is a dict {mono: Fraction}; a mono is a sorted tuple of
(atom id, Fraction exponent).  Every rewriting step is an identity of real /
complex analysis valid where both sides are defined; positivity is used only
for atoms known to be positive.
"""
from fractions import Fraction
import cmath
import math
from . import expr as X
from .expr import E

F0, F1 = Fraction(0), Fraction(1)
HALF = Fraction(1, 2)
MAXTERMS = 60000


class TooBig(Exception):
    pass


class Undefined(Exception):
    pass


def primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1 if d == 2 else 2
        if d > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Atom:
    __slots__ = ("id", "kind", "data", "pos", "cplx", "val", "e", "isint")


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v += c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(a, c):
    if not c:
        return {}
    if c == 1:
        return a
    return {m: v * c for m, v in a.items()}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    while i < len(m1) and j < len(m2):
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a)
            i += 1
        elif a[0] > b[0]:
            out.append(b)
            j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def mpow(m, q):
    return tuple((a, e * q) for a, e in m)


class Norm:
    def __init__(self):
        self.atoms = []
        self.key = {}
        self.memo = {}
        self.bykind = {}
        self.posfacts = set()
        self.var_val = {}
        self.fval_memo = {}
        self.I = self.atom(("I",), "I", None, False, True, 1j, X.IMAG)
        self.PI = self.atom(("pi",), "pi", None, True, False, math.pi, X.PI)

    # ------------------------------------------------------------ atoms
    def atom(self, key, kind, data, pos, cplx, val, e, isint=False):
        a = Atom()
        a.id = len(self.atoms)
        a.kind, a.data, a.pos, a.cplx, a.val, a.e, a.isint = kind, data, pos, cplx, val, e, isint
        self.atoms.append(a)
        if key is not None:
            self.key[key] = a
        self.bykind.setdefault(kind, []).append(a)
        return a

    def aid(self, a):
        return {((a.id, F1),): F1}

    def a_var(self, e):
        k = ("E", e)
        a = self.key.get(k)
        if a is None:
            a = self.atom(k, "var", e, e in X.POSVARS or e in self.posfacts,
                          e.sort == "complex", self.fval(e), e, e.sort == "int")
        return a

    def a_prime(self, p):
        k = ("p", p)
        a = self.key.get(k)
        if a is None:
            a = self.atom(k, "prime", p, True, False, float(p), X.const(p))
        return a

    def a_generic(self, e, pos=False):
        """atom for an opaque term: congruence up to provable equality"""
        k = ("E", e)
        a = self.key.get(k)
        if a is not None:
            return a
        v = self.fval(e)
        kind = "app:" + e.args[0] if e.op == "app" else "op:" + e.op
        for b in self.bykind.get(kind, ()):
            if near(b.val, v) and self.cong(b.e, e):
                self.key[k] = b
                return b
        return self.atom(k, kind, e, pos or e in self.posfacts, e.sort == "complex", v, e,
                         e.sort == "int")

    def cong(self, e1, e2):
        if len(e1.args) != len(e2.args):
            return False
        for x, y in zip(e1.args, e2.args):
            if isinstance(x, E) and isinstance(y, E):
                if x is y:
                    continue
                if x.op == "lam" and y.op == "lam":
                    if x.args[0].sort != y.args[0].sort:
                        return False
                    bv = X.fresh("bv", x.args[0].sort, x.args[0] in X.POSVARS)
                    if not self.equal(X.lam_apply(x, bv), X.lam_apply(y, bv)):
                        return False
                elif x.sort == "bool" or y.sort == "bool":
                    if not (x.op == y.op and self.cong(x, y)):
                        return False
                elif not self.equal(x, y):
                    return False
            elif x != y:
                return False
        return True

    def assume_positive(self, e):
        """register the fact e > 0 (a precondition or an established fact)"""
        p = self.norm(e)
        if len(p) == 1:
            (m, c), = p.items()
            for a, ex in m:
                at = self.atoms[a]
                if not at.pos and (ex == 1 or len(m) == 1):
                    others = all(self.atoms[b].pos for b, _ in m if b != a)
                    if others and c > 0 and ex.denominator == 1 and ex % 2 == 1:
                        at.pos = True
                        self.posfacts.add(at.e)
        else:
            try:
                c, m, q = self.primitive(p, True)
                a = self.a_sum(q)
                if c > 0:
                    a.pos = True
            except Undefined:
                pass
        self.memo.clear()

    def atom_pos(self, a):
        return a.pos

    # ------------------------------------------------------------ constants
    def const_pow(self, c, q):
        if q.denominator == 1:
            if c == 0 and q < 0:
                raise Undefined
            return {(): c ** int(q)} if c else {}
        assert c > 0
        co = F1
        m = []
        for part, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in primes(part).items():
                ex = k * s * q
                fl = math.floor(ex)
                co *= Fraction(p) ** fl
                if ex - fl:
                    m.append((self.a_prime(p).id, ex - fl))
        return {tuple(sorted(m)): co}

    def fix(self, m, c):
        """renormalise prime and I exponents in a monomial"""
        r = None
        for i, (a, e) in enumerate(m):
            k = self.atoms[a].kind
            if k == "prime" and not (0 < e < 1):
                r = True
            elif k == "I" and e != 1:
                r = True
        if not r:
            return m, c
        out = []
        for a, e in m:
            at = self.atoms[a]
            if at.kind == "prime":
                fl = math.floor(e)
                c *= Fraction(at.data) ** fl
                e -= fl
                if not e:
                    continue
            elif at.kind == "I" and e.denominator == 1:
                k = int(e) % 4
                if k >= 2:
                    c = -c
                if k % 2 == 0:
                    continue
                e = F1
            out.append((a, e))
        return tuple(out), c

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > MAXTERMS:
            raise TooBig
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, c = self.fix(mmul(m1, m2), c1 * c2)
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v += c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        return r

    # ------------------------------------------------------------ ordering
    def lead(self, p, posonly):
        """leading monomial for a translation invariant monomial order"""
        ids = set()
        for m in p:
            for a, _ in m:
                if not posonly or self.atoms[a].pos:
                    ids.add(a)
        ids = sorted(ids)
        best = None
        for m in p:
            d = dict(m)
            k = tuple(d.get(i, 0) for i in ids)
            if best is None or k > best[0]:
                best = (k, m)
        return best[1]

    def primitive(self, p, frac):
        """p = c * mono * q ; for frac: c>0 and mono positive"""
        p, den = self.together(p, frac)
        if not p:
            raise Undefined
        m = self.lead(p, frac)
        if frac:
            m = tuple((a, e) for a, e in m if self.atoms[a].pos)
        c = None
        inv = mpow(m, -1)
        q = {}
        for mm, cc in p.items():
            m2, c2 = self.fix(mmul(mm, inv), cc)
            q[m2] = q.get(m2, F0) + c2
        q = {k: v for k, v in q.items() if v}
        # coefficient content: coefficient of a canonical term
        lm = self.lead(q, False)
        c = q[lm]
        if frac:
            c = abs(c)
        q = {k: v / c for k, v in q.items()}
        return c, mmul(m, den), q

    def together(self, p, frac):
        """pull negative powers of sum atoms out of p: p = p2 * mono"""
        den = ()
        while True:
            best = None
            for m in p:
                for a, e in m:
                    if e < 0 and self.atoms[a].kind == "sum":
                        if frac and not self.atoms[a].pos:
                            continue
                        if best is None or a > best[0]:
                            best = (a, e)
                        elif a == best[0] and e < best[1]:
                            best = (a, e)
            if best is None:
                return p, den
            a, e = best
            p = self.lift(p, a, -e)
            den = mmul(den, ((a, e),))

    def lift(self, p, a, k):
        """p * atom_a^k with non-negative integer parts expanded"""
        base = self.atoms[a].data
        groups = {}
        for m, c in p.items():
            ex = F0
            rest = []
            for b, e in m:
                if b == a:
                    ex = e
                else:
                    rest.append((b, e))
            ex = ex + k
            fl = math.floor(ex) if ex >= 0 else 0
            fr = ex - fl
            g = groups.setdefault((fl, fr), {})
            rm = tuple(rest)
            g[rm] = g.get(rm, F0) + c
        out = {}
        powc = {0: {(): F1}}
        for (fl, fr), g in sorted(groups.items()):
            for i in range(1, fl + 1):
                if i not in powc:
                    powc[i] = self.pmul(powc[i - 1], base)
            t = self.pmul(g, powc[fl])
            if fr:
                t = self.pmul(t, {((a, fr),): F1})
            out = padd(out, t)
        return out

    # ------------------------------------------------------------ sum atoms
    def pval(self, p):
        s = 0
        for m, c in p.items():
            t = float(c)
            for a, e in m:
                v = self.atoms[a].val
                try:
                    t = t * (v ** float(e) if e.denominator != 1 else v ** int(e))
                except (ZeroDivisionError, OverflowError):
                    return complex("nan")
            s += t
        return s

    def a_sum(self, q):
        k = ("sum", frozenset(q.items()))
        a = self.key.get(k)
        if a is not None:
            return a
        v = self.pval(q)
        if v == v:
            for b in self.bykind.get("sum", ()):
                if near(b.val, v) and self.is_zero(padd(q, pscale(b.data, -F1))):
                    self.key[k] = b
                    return b
        pos = all(c > 0 and all(self.atoms[x].pos for x, _ in m) for m, c in q.items())
        cplx = any(self.atoms[x].cplx for m in q for x, _ in m)
        return self.atom(k, "sum", q, pos, cplx, v, None)

    def ppow(self, p, q):
        if q == 1:
            return p
        if q == 0:
            return {(): F1}
        if not p:
            if q > 0:
                return {}
            raise Undefined
        if q.denominator == 1 and q > 0 and (len(p) == 1 or len(p) ** int(min(q, 40)) <= 20000):
            if len(p) > 1:
                r = p
                for _ in range(int(q) - 1):
                    r = self.pmul(r, p)
                return r
        if len(p) == 1:
            (m, c), = p.items()
            if q.denominator == 1:
                m2, c2 = self.fix(mpow(m, q), c ** int(q))
                return {m2: c2}
            pm = tuple((a, e) for a, e in m if self.atoms[a].pos)
            nm = tuple((a, e) for a, e in m if not self.atoms[a].pos)
            if not nm and c > 0:
                r = self.const_pow(c, q)
                return self.pmul(r, {mpow(pm, q): F1})
            if len(nm) == 1 and c > 0 and abs(nm[0][1]) == 1:
                r = self.const_pow(c, q)
                return self.pmul(r, {mmul(mpow(pm, q), mpow(nm, q)): F1})
            r = self.const_pow(abs(c), q)
            r = self.pmul(r, {mpow(pm, q): F1})
            a = self.a_sum({nm: F1 if c > 0 else -F1})
            return self.pmul(r, {((a.id, q),): F1})
        frac = q.denominator != 1
        c, m, s = self.primitive(p, frac)
        if len(s) == 1 and not frac:
            (m3, c3), = s.items()
            m, c = mmul(m, m3), c * c3
            return self.ppow({m: c}, q)
        r = self.const_pow(c, q)
        m2, c2 = self.fix(mpow(m, q), F1)
        r = self.pmul(r, {m2: c2})
        if len(s) == 1:
            return self.pmul(r, self.ppow(s, q))
        a = self.a_sum(s)
        return self.pmul(r, {((a.id, q),): F1})

    # ------------------------------------------------------------ exp / log
    def pexp(self, p):
        r = {(): F1}
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "log":
                la = self.atoms[m[0][0]]
                r = self.pmul(r, self.ppow(la.data, c))
                continue
            k = ("exp", m)
            a = self.key.get(k)
            if a is None:
                cplx = any(self.atoms[x].cplx for x, _ in m)
                v = self.pval({m: F1})
                try:
                    v = cmath.exp(v) if isinstance(v, complex) else math.exp(v)
                except OverflowError:
                    v = float("nan")
                a = None
                if v == v:
                    for b in self.bykind.get("exp", ()):
                        if near(b.val, v) and self.is_zero({m: F1, b.data: -F1} if m != b.data else {}):
                            a = b
                            self.key[k] = b
                            break
                if a is None:
                    a = self.atom(k, "exp", m, not cplx, cplx, v, None)
            r = self.pmul(r, {((a.id, c),): F1})
        return r

    def a_log(self, p):
        k = ("log", frozenset(p.items()))
        a = self.key.get(k)
        if a is None:
            v = self.pval(p)
            try:
                v = cmath.log(v) if (isinstance(v, complex) or v < 0) else math.log(v)
            except ValueError:
                v = float("nan")
            for b in self.bykind.get("log", ()):
                if near(b.val, v) and self.is_zero(padd(p, pscale(b.data, -F1))):
                    self.key[k] = b
                    return b
            cplx = any(self.atoms[x].cplx for m in p for x, _ in m)
            a = self.atom(k, "log", p, False, cplx, v, None)
        return a

    def plog(self, p):
        if not p:
            raise Undefined
        out = {}
        if len(p) > 1:
            c, m, s = self.primitive(p, True)
        else:
            (m, c), = p.items()
            s = {(): F1 if c > 0 else -F1}
            c = abs(c)
        # c > 0 ; m may hold non positive atoms only in the single term case
        nm = []
        for a, e in m:
            at = self.atoms[a]
            if at.pos:
                if at.kind == "exp":
                    out = padd(out, {at.data: e})
                elif at.kind == "prime":
                    out = padd(out, pscale(self.aid(self.a_log({(): Fraction(at.data)})), e))
                else:
                    out = padd(out, pscale(self.aid(self.a_log({((a, F1),): F1})), e))
            else:
                nm.append((a, e))
        for part, sg in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in primes(part).items():
                out = padd(out, pscale(self.aid(self.a_log({(): Fraction(q)})), Fraction(k * sg)))
        if nm:
            s = {mmul(mm, tuple(nm)): cc for mm, cc in s.items()}
        if s != {(): F1}:
            if len(s) > 1:
                a = self.a_sum(s)
                out = padd(out, self.aid(self.a_log({((a.id, F1),): F1})))
            else:
                (m1, c1), = s.items()
                if c1 > 0 and len(m1) == 1 and m1[0][1] != 1 and abs(m1[0][1]) == 1:
                    out = padd(out, pscale(self.aid(self.a_log({((m1[0][0], F1),): F1})), m1[0][1]))
                else:
                    out = padd(out, self.aid(self.a_log(s)))
        return out

    # ------------------------------------------------------------ main
    def norm(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._norm(e)
            self.memo[e] = r
        return r

    def _norm(self, e):
        op, a = e.op, e.args
        if op == "const":
            return {(): a[0]} if a[0] else {}
        if op == "var":
            return self.aid(self.a_var(e))
        if op == "pi":
            return self.aid(self.PI)
        if op == "I":
            return self.aid(self.I)
        try:
            if op == "add":
                r = {}
                for x in a:
                    r = padd(r, self.norm(x))
                return r
            if op == "mul":
                r = {(): F1}
                for x in a:
                    r = self.pmul(r, self.norm(x))
                return r
            if op == "div":
                return self.pmul(self.norm(a[0]), self.ppow(self.norm(a[1]), -F1))
            if op == "pow":
                if a[1].op == "const":
                    return self.ppow(self.norm(a[0]), a[1].args[0])
                q = self.norm(a[1])
                b = self.norm(a[0])
                if not q:
                    return {(): F1}
                if len(q) == 1 and () in q:
                    return self.ppow(b, q[()])
                return self.pexp(self.pmul(q, self.plog(b)))
            if op == "exp":
                return self.pexp(self.norm(a[0]))
            if op == "log":
                return self.plog(self.norm(a[0]))
            if op == "app":
                return self.norm_app(e)
            if op == "sum":
                return self.norm_sum(e)
            if op == "pp":
                return self.norm_pp(e)
            if op == "re":
                return self.norm_re(e)
        except (Undefined, TooBig):
            pass
        return self.aid(self.a_generic(e))

    def sign_of_lead(self, p):
        return 1 if p[self.lead(p, False)] > 0 else -1

    def norm_app(self, e):
        f = e.args[0]
        if f == X.CND:
            p = self.norm(e.args[1])
            if not p:
                return {(): HALF}
            q, flip = p, False
            k = ("N", frozenset(q.items()))
            at = self.key.get(k)
            if at is None:
                v = phi(self.pval(q))
                arg = e.args[1]
                for b in self.bykind.get("N", ()):
                    if near(b.val, v) and self.is_zero(padd(q, pscale(b.data, -F1))):
                        self.key[k] = b
                        return self.aid(b)
                    if near(1 - b.val, v) and self.is_zero(padd(q, b.data)):
                        return padd({(): F1}, pscale(self.aid(b), -F1))
                if self.sign_of_lead(q) < 0:
                    q = pscale(q, -F1)
                    arg = X.neg(arg)
                    flip = True
                    v = phi(self.pval(q))
                    k = ("N", frozenset(q.items()))
                at = self.key.get(k)
                if at is None:
                    at = self.atom(k, "N", q, True, False, v, X.app(X.CND, arg))
            r = self.aid(at)
            return padd({(): F1}, pscale(r, -F1)) if flip else r
        if f == X.NDF:
            return self.norm(X.ndf(e.args[1]))
        return self.aid(self.a_generic(e, f in X.POSFUN))

    def norm_pp(self, e):
        p = self.norm(e.args[0])
        if not p:
            return {}
        if all(c > 0 and all(self.atoms[x].pos for x, _ in m) for m, c in p.items()):
            return p
        if all(c < 0 and all(self.atoms[x].pos for x, _ in m) for m, c in p.items()):
            return {}
        c, m, s = self.primitive(p, True)
        out = {m: c}
        flip = self.sign_of_lead(s) < 0
        if flip:
            s = pscale(s, -F1)
        k = ("pp", frozenset(s.items()))
        at = self.key.get(k)
        if at is None:
            v0 = self.pval(s)
            v = v0 if (v0 == v0 and v0.real > 0) else 0.0
            for b in self.bykind.get("pp", ()):
                if near(b.val, v) and self.is_zero(padd(s, pscale(b.data, -F1))):
                    at = b
                    self.key[k] = b
                    break
                if self.is_zero(padd(s, b.data)) if near(self.pval(b.data), -v0) else False:
                    # pp(-x) = pp(x) - x
                    at = b
                    flip = not flip
                    s = b.data
                    break
            if at is None:
                at = self.atom(k, "pp", s, False, False, v, None)
        r = self.aid(at)
        if flip:
            r = padd(r, pscale(s, -F1))
        return self.pmul(r, out)

    def norm_re(self, e):
        p = self.norm(e.args[0])
        out = {}
        for m, c in p.items():
            real = tuple(x for x in m if not self.atoms[x[0]].cplx)
            cp = tuple(x for x in m if self.atoms[x[0]].cplx)
            if not cp:
                out = padd(out, {m: c})
            elif len(cp) == 1 and cp[0][0] == self.I.id:
                continue
            else:
                k = ("re", cp)
                a = self.key.get(k)
                if a is None:
                    v = self.pval({cp: F1})
                    for b in self.bykind.get("re", ()):
                        if near(b.val, v.real) and self.is_zero({cp: F1, b.data: -F1} if cp != b.data else {}):
                            a = b
                            self.key[k] = b
                            break
                if a is None:
                    a = self.atom(k, "re", cp, False, False, v.real, None)
                out = padd(out, {mmul(real, ((a.id, F1),)) if True else None: c})
        return out

    def norm_sum(self, e):
        l, n = e.args
        bv, body = l.args
        p = self.norm(body)
        pn = self.norm(n)
        if not pn:
            return {}
        ba = self.key.get(("E", bv))
        out = {}
        for m, c in p.items():
            inn, outm = [], []
            for a, x in m:
                (inn if bv in self.fv(a) else outm).append((a, x))
            if not inn:
                out = padd(out, pscale(self.pmul({tuple(outm): F1}, pn), c))
                continue
            inner = self.mono_e(tuple(inn))
            s = X.mk("sum", (X.lam(bv, inner), n), e.sort)
            a = self.a_generic(s)
            out = padd(out, {mmul(tuple(sorted(outm)), ((a.id, F1),)): c})
        return out

    # ------------------------------------------------------------ back to E
    def fv(self, aid):
        a = self.atoms[aid]
        k = ("fv", aid)
        r = self.memo.get(k)
        if r is None:
            r = self.atom_e(a).fv
            self.memo[k] = r
        return r

    def atom_e(self, a):
        if a.e is None:
            if a.kind == "sum":
                a.e = self.poly_e(a.data)
            elif a.kind == "exp":
                a.e = X.exp(self.mono_e(a.data))
            elif a.kind == "log":
                a.e = X.log(self.poly_e(a.data))
            elif a.kind == "pp":
                a.e = X.pp(self.poly_e(a.data))
            elif a.kind == "re":
                a.e = X.real_part(self.mono_e(a.data))
        return a.e

    def mono_e(self, m):
        return X.mul(*[X.pow_(self.atom_e(self.atoms[a]), X.const(e)) for a, e in m]) if m else X.ONE

    def poly_e(self, p):
        return X.add(*[X.mul(X.const(c), self.mono_e(m)) for m, c in sorted(p.items())]) if p else X.ZERO

    # ------------------------------------------------------------ zero test
    def is_zero(self, p):
        if not p:
            return True
        v = self.pval(p)
        if v == v:
            sc = sum(abs(float(c)) for c in p.values())
            mags = 0.0
            for m, c in p.items():
                t = abs(self.pval({m: c}))
                mags = max(mags, t)
            if abs(v) > 1e-6 * (mags + 1e-300):
                return False
        try:
            return not self.clear(p)
        except TooBig:
            return False

    def clear(self, p):
        """multiply p by sum atoms and expand until no sum atom remains with
        an exponent outside [0,1); the result is zero iff found zero"""
        done = {}
        for _ in range(200):
            best = None
            for m in p:
                for a, e in m:
                    if self.atoms[a].kind == "sum" and (a not in done or e >= 1 or e < 0):
                        if e.denominator != 1 and 0 < e < 1 and a in done:
                            continue
                        if best is None or a > best:
                            best = a
            if best is None:
                return p
            lo = min((dict(m).get(best, F0) for m in p))
            k = -lo if lo < 0 else F0
            p = self.lift(p, best, k)
            done[best] = True
            if not p:
                return p
        return p

    def equal(self, e1, e2):
        if e1 is e2:
            return True
        return self.is_zero(padd(self.norm(e1), pscale(self.norm(e2), -F1)))

    # ------------------------------------------------------------ fingerprints
    def fval(self, e):
        r = self.fval_memo.get(e)
        if r is None:
            try:
                r = self._fval(e)
            except (ZeroDivisionError, OverflowError, ValueError):
                r = float("nan")
            self.fval_memo[e] = r
        return r

    def _fval(self, e):
        op, a = e.op, e.args
        if op == "const":
            return float(a[0])
        if op == "var":
            v = self.var_val.get(e)
            if v is None:
                h = (hash_str(a[0]) % 99991) / 99991.0
                v = 0.35 + 1.3 * h
                if e.sort == "complex":
                    v = complex(v, 0.2 + h)
                self.var_val[e] = v
            return v
        if op == "pi":
            return math.pi
        if op == "I":
            return 1j
        if op in ("true", "false"):
            return op == "true"
        f = self.fval
        if op == "add":
            return sum(f(x) for x in a)
        if op == "mul":
            r = 1.0
            for x in a:
                r = r * f(x)
            return r
        if op == "div":
            return f(a[0]) / f(a[1])
        if op == "pow":
            b, q = f(a[0]), f(a[1])
            if isinstance(b, complex) or isinstance(q, complex) or b > 0 or q == int(q):
                return b ** q
            return complex(b) ** q
        if op == "exp":
            v = f(a[0])
            return cmath.exp(v) if isinstance(v, complex) else math.exp(v)
        if op == "log":
            v = f(a[0])
            return cmath.log(v) if isinstance(v, complex) or v < 0 else math.log(v)
        if op == "pp":
            return max(rl(f(a[0])), 0.0)
        if op == "re":
            return complex(f(a[0])).real
        if op == "ite":
            return f(a[1]) if f(a[0]) else f(a[2])
        if op == "lt":
            return rl(f(a[0])) < rl(f(a[1]))
        if op == "le":
            return rl(f(a[0])) <= rl(f(a[1]))
        if op == "eq":
            return f(a[0]) == f(a[1])
        if op == "and":
            return all(f(x) for x in a)
        if op == "or":
            return any(f(x) for x in a)
        if op == "not":
            return not f(a[0])
        if op == "app":
            if a[0] == X.CND:
                return phi(f(a[1]))
            if a[0] == X.NDF:
                return math.exp(-rl(f(a[1])) ** 2 / 2) / math.sqrt(2 * math.pi)
            return smooth(a[0], [f(x) for x in a[1:]])
        if op == "sum":                 # linear in the body; n times a constant body
            bv, body = a[0].args
            return f(a[1]) * sum(w * f(X.subst(body, {bv: X.var(f"probe{k}.{bv.sort}", bv.sort, True)})) for k, w in enumerate((.37, .63)))
        if op == "lam":
            bv, body = a
            vals = []
            for k in (0, 1):
                old = self.var_val.get(bv)
                sub = X.subst(body, {bv: X.var(f"probe{k}.{bv.sort}", bv.sort, True)})
                vals.append(f(sub))
            return smooth("lam", vals)
        return smooth(op, [f(x) if isinstance(x, E) else float(hash_str(str(x)) % 1000) / 1000 for x in a])


def rl(v):
    return v.real if isinstance(v, complex) else v


def hash_str(s):
    h = 1469598103934665603
    for ch in s:
        h = ((h ^ ord(ch)) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h ^ (h >> 29)


def smooth(name, vals):
    h = hash_str(name)
    t = (h % 1000) / 500.0
    for i, v in enumerate(vals):
        if isinstance(v, complex):
            v = v.real + 0.7 * v.imag
        t += v * (0.37 + ((h >> (3 * i + 5)) % 97) / 97.0)
    if t != t or abs(t) > 1e12:
        return float("nan")
    return 1.3 + 0.5 * math.sin(t)


def phi(x):
    if isinstance(x, complex):
        x = x.real
    return 0.5 * math.erfc(-x / math.sqrt(2))


def near(a, b):
    return a == a and b == b and abs(a - b) <= 1e-8 * (abs(a) + abs(b)) + 1e-13
