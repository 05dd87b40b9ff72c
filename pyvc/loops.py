"""Loops with a symbolic trip count: probe -> step -> exit.

probe: run the body once on arbitrary values of everything it changes and
       read off how each changed location evolves;
step:  for the current choice of invariants run the body once from an
       arbitrary iteration and check that the invariants are re-established;
exit:  continue after the loop from the invariants at the final count.
An invariant that does not hold on entry or is not preserved is replaced by a
weaker one; the weakest is "anything" (havoc), which is always sound.
"""
import sys
import collections
from . import expr as X
from .expr import E, names_in
from . import engine as G
from .engine import (Sym, SymBool, lift, mkbool, Unsupported, PathEnd, NeedSym, Restart, POISON, Poison, NUM)
from .arrays import SymArray, Store, SymRange, cint, simp_int, wrap, as_array, pyint
from .solver import Simp, replace
from .norm import F1, pscale

import os
DEBUG = os.environ.get("VC_DEBUG")
KAP = [X.var(f"κ{i}", "int") for i in range(4)]


class Slot:
    def __init__(self, kind, key):
        self.kind, self.key = kind, key
        self.sort = None
        self.varshape = False
        self.cands = []
        self.esort = None        # element sort of an array

    def elem(self, rd, nd):
        if self.esort is None:
            self.esort = "complex" if rd(tuple(KAP[:nd])).sort == "complex" else "real"
        return self.esort

    @property
    def id(self):
        return (self.kind, self.key)


class LoopNode:
    def __init__(self, en, label):
        self.label = label
        self.stage = "probe"
        self.slots = collections.OrderedDict()
        self.reprobe = False
        self.probes = []
        self.failed = set()
        self.tried = set()
        self.queue = []
        self.vec = None
        self.attempts = 0
        self.mark = len(en.results)
        self.omark = len(en.obls)
        self.inferred = False
        self.preds = []          # surviving candidate assertions: (name, fn, slot keys)
        self.dropped = set()
        self.c = None
        self.stepruns = 0
        self.guards = []         # conditions of a while loop seen by the probe
        self.completed = False   # some iteration of the current step round reached the end of the body
        self.count = None        # (trip count, {slot: candidate it rests on})

    def show(self):
        return f"loop {self.label} [{self.stage}]"

    def next(self, en):
        if self.stage == "probe":
            if self.reprobe:
                self.reprobe = False
                self.guards = []
                self.probes = []
                return True
            self.stage = "step"
            return True
        if self.stage == "step":
            if not self.inferred:
                # the step was never entered (infeasible): only zero iterations
                self.stage = "exit"
                return True
            if self.dropped or self.failed:
                self.completed = False
            if self.dropped and not self.failed:
                del en.results[self.mark:]
                del en.obls[self.omark:]
                self.preds = [q for i, q in enumerate(self.preds) if i not in self.dropped]
                self.dropped = set()
                return True
            self.dropped = set()
            if self.failed:
                del en.results[self.mark:]
                del en.obls[self.omark:]
                self.attempts += 1
                for k in [k for k in self.slots if k in self.failed]:
                    v = dict(self.vec)
                    v[k] += 1
                    if v[k] < len(self.slots[k].cands):
                        t = tuple(v[j] for j in self.slots)
                        if t not in self.tried:
                            self.tried.add(t)
                            self.queue.append((sum(t), len(self.tried), v))
                if len(self.failed) > 1:
                    v = dict(self.vec)
                    for k in self.failed:
                        v[k] = min(v[k] + 1, len(self.slots[k].cands) - 1)
                    t = tuple(v[j] for j in self.slots)
                    if t not in self.tried:
                        self.tried.add(t)
                        self.queue.append((sum(t), len(self.tried), v))
                self.failed = set()
                if self.attempts > 40 or not self.queue:
                    self.queue = [(0, 0, {k: len(self.slots[k].cands) - 1 for k in self.slots})]
                self.queue.sort(key=lambda t: t[:2])
                _, _, self.vec = self.queue.pop(0)
                return True
            self.stage = "exit"
            return True
        return False


# ------------------------------------------------------------------ candidates
class ScalarCand:
    def __init__(self, fn, why):
        self.fn, self.why = fn, why


class DepCand:
    def __init__(self, x0, y0, ykey, why):
        self.x0, self.y0, self.ykey, self.why = x0, y0, ykey, why


class ArrayCand:
    """shape(cnt) -> tuple, guard(cnt, ix) -> bool term, val(cnt, ix) -> term"""

    def __init__(self, shape, guard, val, why):
        self.shape, self.guard, self.val, self.why = shape, guard, val, why


class Havoc:
    why = "anything"


class ConstCand:
    """keeps a non numeric value"""

    def __init__(self, v):
        self.v = v
        self.why = "unchanged"


def is_num(v):
    return isinstance(v, (Sym, SymBool) + NUM)


def num_e(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, bool):
        return X.TRUE if v else X.FALSE
    return lift(v)


def sort_of(v):
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, float):
        return "real"
    return lift(v).sort


RANK = {"int": 0, "real": 1, "complex": 2}


class LoopBase:
    sym = False

    def setup(self, label, names):
        self.label, self.names = label, names
        self.finished = False
        self.stage = None

    # ------------------------------------------------------------ entry
    def begin(self, frame):
        """first arrival at the loop head in symbolic mode"""
        en = G.ENG
        self.frame_locals = dict(frame.f_locals)
        self.entry = {n: self.frame_locals.get(n, POISON) for n in self.names}
        self.entryseq = en.seq
        self.snap = snapshot(self.frame_locals)
        if en.pos < len(en.stack):
            node = en.stack[en.pos]
            assert isinstance(node, LoopNode), "non deterministic re-execution"
        else:
            node = LoopNode(en, self.label)
            en.stack.append(node)
        en.pos += 1
        self.node = node
        self.stage = node.stage
        en.path.loops += 1
        for n in self.names:
            node.slots.setdefault(("local", n), Slot("local", n))
        for g in en.ghost:
            node.slots.setdefault(("ghost", g), Slot("ghost", g))
        self.pcmark = len(en.path.pc)
        self.wmark = len(en.wlog)
        self.N = self.count_term()
        if self.stage == "probe":
            self.c = en.fresh("c", "int")
            self.assume_iter(self.c)
            self.havoc_all()
        elif self.stage == "step":
            self.c = en.fresh("c", "int")
            if not node.inferred:
                self.infer()
                self.infer_preds()
                node.inferred = True
                node.vec = {k: 0 for k in node.slots}
                node.tried.add(tuple(0 for _ in node.slots))
            node.stepruns += 1
            self.assume_iter(self.c)
            self.set_from(self.c)
        else:
            if node.inferred and node.completed:
                self.cexit = self.exit_count()
                self.set_from(self.cexit)
            else:
                # zero iterations: no iteration is feasible, or none reaches its end
                if self.N is not None:
                    en.assume(X.eq(self.N, X.ZERO))
                    if not en.ctx.feasible():
                        raise PathEnd
                self.vals = dict(self.entry)
                self.cexit = X.ZERO

    def assume_iter(self, c):
        en = G.ENG
        en.assume(X.le(X.ZERO, c))
        if self.N is not None:
            en.assume(X.lt(c, self.N))
        if not en.ctx.feasible():
            raise PathEnd

    # ------------------------------------------------------------ havoc
    def havoc_value(self, slot, entry, tag="h"):
        en = G.ENG
        if isinstance(entry, Poison):
            return POISON, None
        if is_num(entry):
            if slot.sort is None:
                slot.sort = sort_of(entry)
            v = en.fresh(tag, slot.sort)
            return (SymBool(v) if slot.sort == "bool" else Sym(v)), v
        if isinstance(entry, SymArray):
            shp = entry.shp
            if slot.varshape:
                shp = tuple(en.fresh("len", "int") for _ in shp)
                for s in shp:
                    en.assume(X.le(X.ZERO, s))
            fname = f"arr@{self.fresh_id()}"
            es = slot.elem(entry.reader(), len(shp))
            return SymArray.make(shp, lambda ix: X.app(fname, *ix, sort=es)), (fname, shp)
        return entry, None

    def fresh_id(self):
        en = G.ENG
        en.fcount += 1
        return en.fcount

    def havoc_all(self):
        en = G.ENG
        self.vals = {}
        self.hv = {}
        for k, slot in self.node.slots.items():
            if slot.kind == "local":
                self.vals[slot.key], self.hv[k] = self.havoc_value(slot, self.entry[slot.key])
            elif slot.kind == "ghost":
                e = en.ghost[slot.key]
                v = en.fresh("g", "int")
                self.hv[k] = v
                en.ghost[slot.key] = v
            else:
                st = en.stores[slot.key]
                self.store_entry = getattr(self, "store_entry", {})
                self.store_entry[slot.key] = (st.shape, st.reader())
                fname = f"arr@{self.fresh_id()}"
                es = slot.elem(st.reader(), len(st.shape))
                st.havoc(lambda ix, f=fname, es=es: X.app(f, *ix, sort=es))
                self.hv[k] = (fname, st.shape)

    # ------------------------------------------------------------ end of body
    def end_body(self, frame):
        en = G.ENG
        now = dict(frame.f_locals)
        if not same_snapshot(self.snap, snapshot(self.frame_locals)):
            raise Unsupported("object, list or dict modified inside a symbolic loop")
        node = self.node
        if self.stage == "probe":
            new = {}
            # pre-existing stores that were written
            for st in en.wlog[self.wmark:]:
                if st.seq <= self.entryseq and ("store", st.seq) not in node.slots:
                    node.slots[("store", st.seq)] = Slot("store", st.seq)
                    node.reprobe = True
            for k, slot in node.slots.items():
                if slot.kind == "local":
                    v = now.get(slot.key, POISON)
                    ent = self.entry[slot.key]
                    if isinstance(ent, Poison):
                        continue
                    if is_num(ent) and is_num(v):
                        s = sort_of(v)
                        if (s == "bool") != (slot.sort == "bool"):
                            raise Unsupported("local changes between boolean and number")
                        if s != "bool" and RANK[s] > RANK[slot.sort]:
                            slot.sort = s
                            node.reprobe = True
                        new[k] = ("num", num_e(v))
                    elif isinstance(ent, SymArray) and isinstance(v, SymArray):
                        if len(v.shp) != len(ent.shp):
                            raise Unsupported("array rank changes in a loop")
                        if not slot.varshape and not all(en.eq_int(a, b) for a, b in zip(v.shp, ent.shp)):
                            slot.varshape = True
                            node.reprobe = True
                        new[k] = ("arr", v.shp, self.content(v))
                        self.upgrade(slot, new[k][2])
                    elif v is ent:
                        new[k] = ("same",)
                    elif isinstance(ent, SymArray) != isinstance(v, SymArray) or is_num(ent) != is_num(v):
                        new[k] = ("other",)
                    else:
                        try:
                            same = type(v) is type(ent) and isinstance(v, (str, type(None))) and v == ent
                        except Exception:
                            same = False
                        new[k] = ("same",) if same else ("other",)
                elif slot.kind == "ghost":
                    new[k] = ("num", en.ghost[slot.key])
                elif slot.kind == "store" and slot.key in getattr(self, "store_entry", {}):
                    st = en.stores[slot.key]
                    ix = tuple(KAP[:len(st.shape)])
                    new[k] = ("arr", st.shape, st.get(ix))
                    self.upgrade(slot, new[k][2])
            node.probes.append((en.path.pc[self.pcmark:], new, self.c, dict(self.hv)))
            raise PathEnd
        if self.stage == "step":
            node.completed = True
            self.check_step(now)
            raise PathEnd
        raise PathEnd

    def upgrade(self, slot, e):
        if e.sort == "complex" and slot.esort != "complex":
            slot.esort = "complex"
            self.node.reprobe = True

    def content(self, a):
        return a.get(*KAP[:len(a.shp)])

    # ------------------------------------------------------------ inference
    def entry_of(self, k):
        en = G.ENG
        slot = self.node.slots[k]
        if slot.kind == "local":
            return self.entry[slot.key]
        if slot.kind == "ghost":
            return Sym(en.ghost[slot.key])
        st = en.stores[slot.key]
        return SymArray(st)

    def infer(self):
        en, node = G.ENG, self.node
        N = self.N
        probes = node.probes
        # merged new values
        merged = {}
        for k in node.slots:
            vals = [(pc, new.get(k)) for pc, new, c, hv in probes]
            vals = [(pc, v) for pc, v in vals if v is not None]
            if vals:
                merged[k] = vals
        pc_c = probes[0][2] if probes else None
        hv = probes[0][3] if probes else {}
        closed = {}       # havoc var -> fn(cnt)
        scal = {}
        # pass 1: scalars
        for k, slot in node.slots.items():
            slot.cands = []
            ent = self.entry_of(k)
            if isinstance(ent, Poison):
                slot.cands = [Havoc()]
                continue
            if is_num(ent):
                e0 = num_e(ent)
                h = hv.get(k)
                if k in merged and h is not None:
                    new = merge([(pc, v[1]) for pc, v in merged[k] if v[0] == "num"], self.pcmark)
                    if len(new) and all(v[0] == "num" for _, v in merged[k]):
                        self.scalar_cands(k, slot, e0, h, new, pc_c, hv, closed)
                scal[k] = e0
            elif isinstance(ent, SymArray):
                pass
            else:
                if k in merged and all(v[0] == "same" for _, v in merged[k]):
                    slot.cands = [ConstCand(ent)]
                else:
                    slot.cands = [Havoc()]
        if N is None:
            N = self.guess_count(pc_c, hv, closed)
        # templates for scalars and functional dependencies
        for k, e0 in scal.items():
            slot = node.slots[k]
            if slot.sort == "bool":
                slot.cands.append(Havoc())
                continue
            pre = []
            for t in en.templates:
                for cd in t("scalar", e0, N, en) or ():
                    pre.append(cd)
            unchanged = bool(slot.cands) and slot.cands[0].why == "unchanged"
            dep = []
            if not any(c.why in ("unchanged", "affine") for c in slot.cands):
                for k2, y0 in sorted(scal.items(), key=lambda t: t[1].depth):
                    if k2 != k and y0.op != "const" and y0 is not e0 and contains(e0, y0) \
                            and not contains(y0, e0):
                        if any(c.why == "unchanged" for c in node.slots[k2].cands):
                            continue
                        dep.append(DepCand(e0, y0, k2, f"function of {k2[1]}"))
            slot.cands = ([] if unchanged else pre) + slot.cands + dep + [Havoc()]
            slot.cands = [c for c in slot.cands if self.entry_ok_scalar(c, e0)]
        # pass 2: arrays
        for k, slot in node.slots.items():
            ent = self.entry_of(k)
            if not isinstance(ent, SymArray):
                continue
            cands = []
            if k in merged and all(v[0] == "arr" for _, v in merged[k]) and k in hv and hv[k]:
                fname, hshp = hv[k]
                new = [(pc, v[2]) for pc, v in merged[k]]
                shapes = [v[1] for _, v in merged[k]]
                same_shape = not slot.varshape
                me = X.app(fname, *KAP[:len(hshp)], sort=slot.esort or "real")
                if same_shape and all(e is me for _, e in new):
                    rd = ent.reader()
                    cands.append(ArrayCand(lambda cnt, s=ent.shp: s, lambda cnt, ix: X.TRUE,
                                           lambda cnt, ix, rd=rd: rd(ix), "unchanged"))
                else:
                    for t in en.templates:
                        for cd in t("array", ent, N, en) or ():
                            cands.append(cd)
                    if same_shape:
                        cd = self.map_cand(ent, fname, hshp, merge(new, self.pcmark), pc_c, closed, hv)
                        if cd is not None:
                            cands.insert(0, cd)
                    if same_shape:
                        shp = ent.shp
                        cands.append(ArrayCand(lambda cnt, s=shp: s, lambda cnt, ix: X.FALSE,
                                               lambda cnt, ix: X.ZERO, "same shape"))
            slot.cands = [c for c in cands if self.entry_ok_array(c, ent)] + [Havoc()]

    def guess_count(self, c, hv, closed):
        """trip count of a while loop whose condition is an inequality over
        quantities with a closed form in the number of iterations"""
        node, N = self.node, G.ENG.th.N
        gs = {tuple(g) for g in node.guards}
        if len(gs) != 1 or len(next(iter(gs))) != 1:
            return None
        g = next(iter(gs))[0]
        if g.op not in ("lt", "le"):
            return None
        used = {}
        m = {}
        for k, h in hv.items():
            if isinstance(h, E) and h in g.fv:
                if h not in closed or h.sort != "int" or not node.slots[k].cands:
                    return None
                m[h] = closed[h](c)
                used[k] = node.slots[k].cands[0]
        if not used:
            return None
        a, b = (replace(x, m) for x in g.args)
        p = N.norm(X.sub(X.sub(b, a), X.ONE if g.op == "lt" else X.ZERO))
        ca = N.a_var(c)
        if p.get(((ca.id, F1),)) != -1:
            return None
        rest = {q: v for q, v in p.items() if q != ((ca.id, F1),)}
        e = N.poly_e(rest)
        if c in e.fv or (e.fv & {h for h in hv.values() if isinstance(h, E)}) or e.sort != "int" \
                or (G.names_in(e) & {v[0] for v in hv.values() if isinstance(v, tuple)}):
            return None
        node.count = (simp_int(X.add(e, X.ONE)), used)
        return node.count[0]

    def scalar_cands(self, k, slot, e0, h, new, c, hv, closed):
        en = G.ENG
        N = en.th.N
        if len(new) == 1 and new[0][1] is h:
            slot.cands.append(ScalarCand(lambda cnt: e0, "unchanged"))
            closed[h] = lambda cnt: e0
            return
        if slot.sort == "bool":
            return
        e = ite_of(new)
        hvars = {v for v in hv.values() if isinstance(v, E)}
        hfun = {v[0] for v in hv.values() if isinstance(v, tuple)}
        d = N.norm(X.sub(e, h))
        de = N.poly_e(d)
        if de.fv & hvars or (G.names_in(de) & hfun):
            # geometric update
            if h not in (hvars - {h}) and len(new) == 1:
                q = N.norm(X.div(e, h))
                qe = N.poly_e(q)
                if not (qe.fv & hvars) and not (G.names_in(qe) & hfun) and c not in qe.fv:
                    slot.cands.append(ScalarCand(lambda cnt: X.mul(e0, X.pow_(qe, cnt)), "geometric"))
                    closed[h] = slot.cands[-1].fn
            return
        if c not in de.fv:
            slot.cands.append(ScalarCand(lambda cnt: X.add(e0, X.mul(de, cnt)), "affine"))
        else:
            bv = X.fresh("k", "int")
            body = X.subst(de, {c: bv})
            slot.cands.append(ScalarCand(lambda cnt: X.add(e0, X.summation(bv, body, cnt)), "sum"))
        closed[h] = slot.cands[-1].fn

    def entry_ok_scalar(self, cd, e0):
        if isinstance(cd, ScalarCand):
            return self.ok(G.ENG.ctx, X.eq(e0, cd.fn(X.ZERO)))
        return True

    def entry_ok_array(self, cd, ent):
        en = G.ENG
        if isinstance(cd, ArrayCand):
            shp = cd.shape(X.ZERO)
            if len(shp) != len(ent.shp):
                return False
            if not all(en.eq_int(a, b) for a, b in zip(shp, ent.shp)):
                return False
            return self.check_array(en.ctx, cd, X.ZERO, ent.shp, ent.reader())
        return True

    def ok(self, ctx, goal):
        if names_in(goal) & set(G.ENG.th.unfolds) and G.ENG.prover.quick_refute(ctx, goal):
            return False
        r = G.ENG.prover.prove(ctx, goal, refute=False, budget=8)
        return r.status == "proved"

    def check_array(self, ctx, cd, cnt, shp, rd):
        ix = tuple(G.ENG.fresh("i", "int") for _ in shp)
        hyps = []
        for i, s in zip(ix, shp):
            hyps += [X.le(X.ZERO, i), X.lt(i, s)]
        g = cd.guard(cnt, ix)
        ctx2 = ctx.add(*hyps, g)
        if not ctx2.feasible():
            return True
        saved = G.ENG.ctx
        G.ENG.ctx = ctx2
        try:
            actual = rd(ix)
            want = cd.val(cnt, ix)
        finally:
            G.ENG.ctx = saved
        if names_in(want) & set(en_eager()) and actual.op == "ite":
            r = self.check_segments(ctx2, cd, cnt, ix, actual) or self.ok(ctx2, X.eq(actual, want))
        else:
            r = self.ok(ctx2, X.eq(actual, want)) or self.check_segments(ctx2, cd, cnt, ix, actual)
        if DEBUG and not r:
            print("ARR", cd.why, X.show(cnt), [X.show(i) for i in ix], "\n  got ", X.show(actual)[:1500], "\n  want", X.show(want)[:600], "\n  hyps", [X.show(h) for h in ctx2.hyps][-8:], file=sys.stderr)
        return r

    def check_segments(self, ctx, cd, cnt, ix, actual):
        """split a one dimensional array at its piece boundaries and count
        each piece from its own start"""
        if len(ix) != 1:
            return False
        return self.segment(ctx, cd, cnt, ix[0], ix[0], actual, 4)

    def segment(self, ctx, cd, cnt, i, at, actual, depth):
        """i: the variable counting from the start of this piece, at: its index in the array"""
        for x in X.subterms(actual):
            if x.op != "ite" or x.args[0].op not in ("lt", "le"):
                continue
            a, b = x.args[0].args
            if a is not i or i in b.fv:
                continue
            T = b if x.args[0].op == "lt" else X.add(b, X.ONE)
            o = G.ENG.fresh("o", "int")
            m = {i: X.add(T, o)}
            lo = ctx.add(X.lt(i, T))
            hi = ctx_subst(ctx, i, m[i]).add(X.le(X.ZERO, o))
            for c, mm, v in ((lo, {}, i), (hi, m, o)):
                if not c.feasible():
                    continue
                saved = G.ENG.ctx
                try:
                    G.ENG.ctx = c
                    act = Simp(c)(X.subst(actual, mm))
                    pos = simp_int(X.subst(at, mm))
                    want = cd.val(cnt, (pos,))
                finally:
                    G.ENG.ctx = saved
                if not self.ok(c, X.eq(act, want)):
                    if depth > 0 and act.op == "ite" and \
                            self.segment(c, cd, cnt, v, X.subst(at, mm), act, depth - 1):
                        continue
                    if DEBUG:
                        print("SEG", X.show(T), X.show(act)[:300], "want", X.show(want)[:300], file=sys.stderr)
                    return False
            return True
        return False

    def map_cand(self, ent, fname, hshp, new, c, closed, hv):
        """a loop that writes each location at most once, from locations it
        has not written yet: content(cnt) = written? W : entry"""
        en = G.ENG
        N = en.th.N
        e = ite_of(new)
        kap = KAP[:len(hshp)]
        me = X.app(fname, *kap, sort=e.sort if e.sort == "complex" else "real")
        e = replace(e, {h: f(c) for h, f in closed.items() if isinstance(h, E)})
        ctx = en.ctx.add(X.le(X.ZERO, c), *([X.lt(c, self.N)] if self.N is not None else []))
        for i, s in zip(kap, hshp):
            ctx = ctx.add(X.le(X.ZERO, i), X.lt(i, s))
        leaves = []

        def walk(x, conds):
            if x.op == "ite":
                walk(x.args[1], conds + conj(x.args[0]))
                walk(x.args[2], conds + conj(X.not_(x.args[0])))
            else:
                if x is not me:
                    leaves.append((conds, x))
        walk(e, [])
        if DEBUG:
            print("MAP", self.label, X.show(e)[:900], file=sys.stderr)
        if not leaves or len(leaves) > 12:
            return None
        rd = ent.reader()
        out = []
        bad = {v for v in hv.values() if isinstance(v, E)}
        badf = {v[0] for v in hv.values() if isinstance(v, tuple)}
        for conds, v in leaves:
            sol = None
            for cd in conds:
                if cd.op == "eq":
                    p = N.norm(X.sub(cd.args[0], cd.args[1]))
                    ca = N.a_var(c)
                    co = p.get(((ca.id, F1),))
                    if co is not None and abs(co) == 1:
                        rest = {m: q for m, q in p.items() if m != ((ca.id, F1),)}
                        r = N.poly_e(pscale(rest, -co))
                        if c not in r.fv and any(kk in r.fv for kk in kap):
                            sol = r
                            break
            if sol is None and ctx.add(*conds).implied(X.eq(c, X.ZERO)):
                sol, cd = X.ZERO, None
            if sol is None:
                return None
            v2 = subst_app(v, fname, rd)
            conds2 = [subst_app(x, fname, rd) for x in conds if x is not cd]
            if (v2.fv & bad) or any(x.fv & bad for x in conds2):
                return None
            if names_in(v2) & badf:
                return None             # reads another array that the loop changes
            out.append((sol, conds2, v2))

        def val(cnt, ix):
            m0 = dict(zip(kap, ix))
            r = rd(ix)
            for sol, conds, v in reversed(out):
                s = X.subst(sol, m0)
                m = dict(m0)
                m[c] = s
                cond = X.and_(X.le(X.ZERO, s), X.lt(s, cnt), *[X.subst(x, m) for x in conds])
                r = X.ite(cond, X.subst(v, m), r)
            return r
        return ArrayCand(lambda cnt, s=ent.shp: s, lambda cnt, ix: X.TRUE, val, "map")

    # ------------------------------------------------------------ candidate assertions
    def infer_preds(self):
        en, node = G.ENG, self.node
        if not en.preds:
            return
        sc = []
        for k, slot in node.slots.items():
            ent = self.entry_of(k)
            if slot.kind == "local" and is_num(ent) and slot.sort == "real" and not isinstance(ent, SymBool) \
                    and not any(c.why == "unchanged" for c in slot.cands):
                sc.append((k, num_e(ent)))
        for name, arity, fn in en.preds:
            for ks in ([(a,) for a in sc] if arity == 1 else [(a, b) for a in sc for b in sc if a is not b]):
                g = fn(*[e for _, e in ks])
                if en.prover.quick_refute(en.ctx, g, 2):
                    continue
                if self.ok(en.ctx, g):
                    node.preds.append((name, fn, tuple(k for k, _ in ks)))

    def assume_preds(self):
        for name, fn, ks in self.node.preds:
            vs = [self.vals.get(k[1]) for k in ks]
            if all(is_num(v) for v in vs):
                G.ENG.assume(fn(*[num_e(v) for v in vs]))

    def check_preds(self, now):
        en, node = G.ENG, self.node
        for i, (name, fn, ks) in enumerate(node.preds):
            if i in node.dropped:
                continue
            vs = [now.get(k[1]) for k in ks]
            if not all(is_num(v) for v in vs):
                node.dropped.add(i)
                continue
            g = fn(*[num_e(v) for v in vs])
            if en.prover.quick_refute(en.ctx, g, 2) or not self.ok(en.ctx, g):
                if DEBUG:
                    print("PRED", self.label, name, ks, "dropped", X.show(g)[:200], file=sys.stderr)
                node.dropped.add(i)

    # ------------------------------------------------------------ set / check
    def set_from(self, cnt):
        """put every changed location into its invariant's state at cnt"""
        en, node = G.ENG, self.node
        self.vals = {}
        deps = []
        self.stepval = {}
        for k, slot in node.slots.items():
            cd = slot.cands[node.vec[k]]
            ent = self.entry_of(k)
            if isinstance(cd, DepCand):
                deps.append((k, slot, cd))
                continue
            if isinstance(cd, Havoc):
                if slot.kind == "local":
                    if isinstance(ent, SymArray):
                        shp = tuple(en.fresh("len", "int") for _ in ent.shp) if slot.varshape else ent.shp
                        for s in shp:
                            en.assume(X.le(X.ZERO, s))
                        f = f"junk@{self.fresh_id()}"
                        v = SymArray.make(shp, lambda ix, f=f, es=slot.esort or "real": X.app(f, *ix, sort=es))
                    elif is_num(ent):
                        x = en.fresh("v", slot.sort)
                        v = SymBool(x) if slot.sort == "bool" else Sym(x)
                    else:
                        v = POISON
                    self.vals[slot.key] = v
                elif slot.kind == "ghost":
                    en.ghost[slot.key] = en.fresh("g", "int")
                else:
                    f = f"junk@{self.fresh_id()}"
                    en.stores[slot.key].havoc(lambda ix, f=f, es=slot.esort or "real": X.app(f, *ix, sort=es))
            elif isinstance(cd, ConstCand):
                self.vals[slot.key] = cd.v
            elif isinstance(cd, ScalarCand):
                v = cd.fn(cnt)
                if slot.kind == "ghost":
                    en.ghost[slot.key] = v
                else:
                    self.vals[slot.key] = Sym(v)
            elif isinstance(cd, ArrayCand):
                f = f"junk@{self.fresh_id()}"

                def fn(ix, cd=cd, f=f, es=slot.esort or "real"):
                    g = cd.guard(cnt, ix)
                    d = G.ENG.ctx.decide(g) if g.op not in ("true", "false") else g is X.TRUE
                    if d is True:
                        return cd.val(cnt, ix)
                    if d is False:
                        return X.app(f, *ix, sort=es)
                    return X.ite(g, cd.val(cnt, ix), X.app(f, *ix, sort=es))
                shp = tuple(simp_int(s) for s in cd.shape(cnt))
                if slot.kind == "local":
                    self.vals[slot.key] = SymArray.make(shp, fn)
                else:
                    en.stores[slot.key].havoc(fn, shp)
        for k, slot, cd in deps:
            yk = cd.ykey
            yv = num_e(self.vals[yk[1]]) if yk[0] == "local" and yk[1] in self.vals else None
            if yv is None:
                yv = en.fresh("v", slot.sort)
                self.vals[slot.key] = Sym(yv)
                continue
            v = replace(cd.x0, {cd.y0: yv})
            if slot.kind == "ghost":
                en.ghost[slot.key] = v
            else:
                self.vals[slot.key] = Sym(v)
        self.assume_preds()

    def check_step(self, now):
        en, node = G.ENG, self.node
        cnt = X.add(self.c, X.ONE)
        ctx = en.ctx
        for k, slot in node.slots.items():
            if k in node.failed:
                continue
            cd = slot.cands[node.vec[k]]
            if isinstance(cd, Havoc):
                continue
            if slot.kind == "local":
                v = now.get(slot.key, POISON)
            elif slot.kind == "ghost":
                v = Sym(en.ghost[slot.key])
            else:
                v = SymArray(en.stores[slot.key])
            okk = False
            if isinstance(cd, ConstCand):
                okk = v is cd.v or (isinstance(v, (str, type(None))) and v == cd.v)
            elif isinstance(cd, ScalarCand):
                okk = is_num(v) and self.ok(ctx, X.eq(num_e(v), cd.fn(cnt)))
            elif isinstance(cd, DepCand):
                yv = now.get(cd.ykey[1])
                okk = is_num(v) and is_num(yv) and self.ok(ctx, X.eq(num_e(v), replace(cd.x0, {cd.y0: num_e(yv)})))
            elif isinstance(cd, ArrayCand):
                if isinstance(v, SymArray):
                    shp = cd.shape(cnt)
                    okk = len(shp) == len(v.shp) and all(en.eq_int(a, b) for a, b in zip(v.shp, shp)) and \
                        self.check_array(ctx, cd, cnt, v.shp, v.reader())
            if not okk:
                if DEBUG:
                    print("STEP", self.label, k, cd.why, "not preserved", file=sys.stderr)
                node.failed.add(k)
        if not node.failed:
            self.check_preds(now)
        # anything else that was written must be covered by a slot
        for st in en.wlog[self.wmark:]:
            if st.seq <= self.entryseq and ("store", st.seq) not in node.slots:
                raise Unsupported("loop writes an array the probe did not see")

    # ------------------------------------------------------------ values
    def tuple_vals(self):
        return tuple(self.vals.get(n, POISON) for n in self.names)


def subst_app(e, fname, rd, memo=None):
    if memo is None:
        memo = {}
    if fname not in G.names_in(e):
        return e
    r = memo.get(e)
    if r is not None:
        return r
    args = [subst_app(x, fname, rd, memo) if isinstance(x, E) else x for x in e.args]
    if e.op == "app" and e.args[0] == fname:
        r = rd(tuple(args[1:]))
    elif e.op == "lam":
        bv, body = e.args
        nb = X.fresh("bv", bv.sort, bv in X.POSVARS)
        r = X.lam(nb, subst_app(X.subst(body, {bv: nb}), fname, rd))
    else:
        r = X.rebuild(e, args)
    memo[e] = r
    return r


def en_eager():
    return G.ENG.th.eager


def ctx_subst(ctx, v, e):
    from .solver import Ctx
    return Ctx(ctx.th, [X.subst(h, {v: e}) for h in ctx.hyps])


def conj(c):
    return list(c.args) if c.op == "and" else [c]


def contains(e, sub):
    return e is sub or (e.depth >= sub.depth and sub in X.subterms(e))


def merge(vals, mark):
    """[(pc, value)] -> same list, dropping duplicates"""
    out = []
    for pc, v in vals:
        out.append((pc, v))
    if len({id(v) for _, v in out}) == 1:
        return out[:1]
    return out


def ite_of(vals):
    r = vals[-1][1]
    for pc, v in reversed(vals[:-1]):
        r = X.ite(X.and_(*pc), v, r)
    return r


def snapshot(loc):
    """identity of attributes / elements of objects reachable from locals"""
    out = []
    seen = set()

    def visit(v, d):
        if id(v) in seen or d > 3:
            return
        if isinstance(v, (list, tuple, set)):
            seen.add(id(v))
            out.append((id(v), tuple(id(x) for x in v)))
            for x in v:
                visit(x, d + 1)
        elif isinstance(v, dict):
            seen.add(id(v))
            out.append((id(v), tuple((k if isinstance(k, str) else id(k), id(x)) for k, x in v.items())))
            for x in v.values():
                visit(x, d + 1)
        elif hasattr(v, "__dict__") and not isinstance(v, type) and type(v).__module__.split(".")[0] in ("finoptions", "harness"):
            seen.add(id(v))
            dd = v.__dict__
            out.append((id(v), tuple((k, id(x)) for k, x in dd.items())))
            for x in dd.values():
                visit(x, d + 1)
    for k in sorted(loc):
        if not k.startswith("_vc"):
            visit(loc[k], 0)
    return (out, [loc])       # keep objects alive so ids stay valid


def same_snapshot(a, b):
    return a[0] == b[0]


# ------------------------------------------------------------------ for
def sym_iter(it):
    """(count, item(c)) of an iterable of symbolic length, else None"""
    if isinstance(it, SymRange):
        if cint(it.n) is not None:
            return None
        return it.n, lambda c: Sym(simp_int(it.item(c)))
    if isinstance(it, SymArray):
        if it.shp and cint(it.shp[0]) is None:
            if it.ndim == 1:
                rd = it.reader()
                return it.shp[0], lambda c: wrap(rd((c,)))
            return it.shp[0], lambda c: it[Sym(c)]
        return None
    if isinstance(it, SymEnum):
        n, f = sym_iter(it.it)
        return n, lambda c: (Sym(simp_int(X.add(lift(it.start), c))), f(c))
    if isinstance(it, SymZip):
        parts = []
        n = None
        for x in it.its:
            s = sym_iter(x)
            if s is None:
                raise Unsupported("zip of symbolic and concrete")
            if n is None:
                n = s[0]
            elif not G.ENG.eq_int(n, s[0]):
                raise Unsupported("zip of different lengths")
            parts.append(s[1])
        return n, lambda c: tuple(p(c) for p in parts)
    if isinstance(it, SymList):
        return it.n, it.item
    return None


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __iter__(self):
        raise Unsupported("enumerate of a symbolic iterable")


class SymZip:
    def __init__(self, its):
        self.its = its

    def __iter__(self):
        raise Unsupported("zip of symbolic iterables")


class SymList:
    """result of a comprehension over a symbolic iterable"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        raise Unsupported("iteration of a symbolic list")

    def __len__(self):
        raise Unsupported("len of a symbolic list")

    def symlen(self):
        return pyint(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic list")
        e = lift(i)
        c = cint(e)
        if c is not None and c < 0:
            e = X.add(self.n, e)
        return self.item(e)


class ForLoop(LoopBase):
    def __init__(self, it, label, names):
        self.setup(label, names)
        s = sym_iter(it)
        if s is None:
            self.it = iter(rng_list(it) if isinstance(it, SymRange) else it)
            return
        n, f = s
        c = G.ENG.const_of(n)
        if c is not None:
            self.it = iter([f(X.const(i)) for i in range(int(c))])
            return
        self.sym = True
        self.n, self.item = n, f
        self.state = 0

    def noelse(self):
        if self.sym:
            raise Unsupported("else clause of a symbolic loop")

    def __iter__(self):
        return self if self.sym else self.it

    def count_term(self):
        return self.n

    def exit_count(self):
        return self.n

    def __next__(self):
        frame = sys._getframe(1)
        if self.state == 0:
            self.state = 1
            self.begin(frame)
            if self.stage in ("probe", "step"):
                return self.item(self.c)
            self.state = 2
            raise StopIteration
        if self.state == 1:
            self.state = 2
            self.end_body(frame)
        raise StopIteration

    def enter(self):
        return self.tuple_vals()

    def leave(self):
        if self.stage == "exit":
            return self.tuple_vals()
        # left by break during a step: keep the current values
        loc = sys._getframe(1).f_locals
        if self.stage == "probe":
            raise PathEnd
        return tuple(loc.get(n, POISON) for n in self.names)


def rng_list(r):
    return [pyint(simp_int(r.item(X.const(i)))) for i in range(cint(r.n))]


# ------------------------------------------------------------------ while
class WhileLoop(LoopBase):
    def __init__(self, label, names):
        self.setup(label, names)
        self.state = 0
        self.iters = 0
        self.fork0 = None

    def count_term(self):
        return None

    def exit_count(self):
        node = self.node
        if node.count is not None:
            # the invariants hold at the exit count c, the condition fails there
            # and held at c - 1 (or c is 0): c is the trip count if that is not negative
            n, used = node.count
            if all(node.slots[k].cands[node.vec[k]] is cd for k, cd in used.items()) \
                    and G.ENG.ctx.implied(X.le(X.ZERO, n)):
                return n
        c = G.ENG.fresh("c", "int")
        G.ENG.assume(X.le(X.ZERO, c))
        return c

    def head(self):
        """called at the top of every iteration; True if locals must be reset"""
        en = G.ENG
        frame = sys._getframe(1)
        if not self.sym:
            if self.label in en.force_sym and self.iters == 0:
                self.sym = True
                self.begin(frame)
                self.pchead = len(en.path.pc)
                self.state = 1
                return True
            if self.iters > 0 and en.pos > self.fork0:
                en.force_sym.add(self.label)
                raise Restart
            self.fork0 = en.pos
            self.iters += 1
            if self.iters > 3000:
                raise Unsupported("while loop does not terminate concretely")
            self.saved = en.cond_loop
            en.cond_loop = self
            return False
        if self.state == 0:
            self.state = 1
            self.begin(frame)
            self.pchead = len(en.path.pc)
            return True
        self.end_body(frame)

    def go_sym(self):
        G.ENG.cond_loop = self.saved
        self.sym = True

    def tested(self, c):
        """called with the truth value of the condition"""
        en = G.ENG
        if not self.sym:
            en.cond_loop = self.saved
            return c
        if self.stage == "probe" and c:
            self.node.guards.append(list(en.path.pc[self.pchead:]))
        if self.stage in ("probe", "step") and not c:
            raise PathEnd
        if self.stage == "exit" and c:
            raise PathEnd
        return c

    def vals_(self):
        return self.tuple_vals()

    def leave(self):
        if self.sym and self.stage == "probe":
            raise PathEnd
