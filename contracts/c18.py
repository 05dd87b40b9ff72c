"""C18: parameters round-trip, set_param equals fresh construction, copies are independent."""
from .classes import *

META = dict(trusted=["copy.deepcopy on plain objects and scalars (CPython)"],
            assumptions=["numeric parameters are scalars (arrays in C20)",
                         "histories: an object whose every attribute equals those of a freshly built one behaves like it, so one step from an arbitrary "
                         "fresh object settles every sequence of changes; read-only calls in between leave the state alone (C19)"])


def primed(c, q):
    v = c.sym(q)
    return X.var(q + "_new", v.sort, v in X.POSVARS)


def reported(o, want):
    got = dict(o.get_params())
    out = []
    for q in want:
        if q not in got:
            out.append((f"get_params lacks {q}", X.FALSE))
        else:
            out.append((f"get_params[{q}]", same_value(got[q], Sym(want[q]) if isinstance(want[q], X.E) else want[q])))
    extra = set(got) - set(want)
    if extra:
        out.append((f"get_params reports {sorted(extra)}", X.FALSE))
    return out


OTHER = {"type": {"european": "american", "american": "european"}, "otype": {"european": "american", "american": "european"}}


def check(c):
    def go(k):
        H = hyps(c)
        case = lambda env, p: [["change", rtcase(c, wrt=q)] for q in c.params] + [["copies", rtcase(c)]]

        def run():
            o = c.make()
            r0 = reported(o, dict(c.args(), **c.hidden))
            p = o.copy()
            s0, s1 = state(o), state(p)
            return r0 + same_state(s0, s1, "copy") + [("copy is another object of the same class", X.TRUE if p is not o and type(p) is type(o) else X.FALSE)]
        k.verify(run, lambda p: p.value, theory(), hyps=H, case=case, witness=False, what=f"{c.name} parameters and copy")
        for q in list(c.params) + [f for f in c.fixed if f in OTHER or f == "option"]:
            new = primed(c, q) if q in c.params else OTHER[q][c.fixed[q]] if q in OTHER else 3
            H2 = H + ([X.lt(C(-1), new), X.lt(new, C(1))] if q.startswith("rho") else [])

            def run(q=q, new=new):
                raw = Sym(new) if isinstance(new, X.E) else new
                o = c.make()
                p = o.copy()
                o.set_param(q, raw)
                fresh = c.make(**{q: new})
                out = reported(o, dict(c.args(**{q: new}), **c.hidden))
                out += same_state(state(fresh), state(o), f"after set_param({q!r})")
                out += same_state(state(c.make()), state(p), "copy made before the change")
                # the other way round: changing the copy leaves the original
                o2 = c.make()
                p2 = o2.copy()
                p2.set_param(q, raw)
                out += same_state(state(c.make()), state(o2), "original after its copy changed")
                out += same_state(state(fresh), state(p2), "changed copy")
                # and a change back
                o.set_param(q, Sym(c.sym(q)) if q in c.params else c.fixed[q])
                out += same_state(state(c.make()), state(o), "changed and changed back")
                return out
            k.verify(run, lambda p: p.value, theory(), hyps=H2, case=case, witness=False, what=f"{c.name} set_param({q})")
    return go


def hyps(c):
    v = {q: c.sym(q) for q in c.params}
    h = []
    for q in v:
        if q.startswith("rho"):
            h += [X.lt(C(-1), v[q]), X.lt(v[q], C(1))]
    return h


for _c in ALL:
    task(_c.name)(check(_c))
