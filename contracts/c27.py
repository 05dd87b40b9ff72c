"""C27: summary, str and repr tell the truth about the object."""
from .classes import *
from pyvc.arrays import SymArray

META = dict(trusted=["str/format of a number shows that number (the text carries the symbolic value itself)", "round(x, 6) and ndarray.round(2)"],
            assumptions=["call/put through their contract: a value determined by the parameters (for arrays the real code, C20)",
                         "arrays of more than six elements are shown through numpy.array2string"],
            bounded=["textual details of array parameters: sampled at run time"])
stub_normals(fo)
M = X.var("m", "int", True)
TITLE = {"GBSOption": "Black Scholes Option", "BlackScholesOption": "Black Scholes Option", "Black76Option": "Black 1977 Option",
         "MiltersenSchwartzOption": "Miltersen Schwartz Option", "RollGeskeWhaleyOption": "Roll-Geske-Whaley Calls on Dividend Paying Stocks",
         "BAWAmericanApproxOption": "Barone-Adesi and Whaley Approximation",
         "BSAmericanApproxOption": "The Bjerksund and Stensland (1993) American Approximation Option",
         "SpreadApproxOption": "Spread-Option Approximation Model", "CRRBinomialTreeOption": "CRR Binomial Tree Model",
         "JRBinomialTreeOption": "JR Binomial Tree Model", "TIANBinomialTreeOption": "TIAN Binomial Tree Model", "TrinomialTreeOption": "Trinomial Tree Model",
         "BionomialSpreadAllTypes": "Rubinstein Binomial Tree Spread Option Model", "BionomialMaxOption": "Binomial Tree Maximum Spread Option Model",
         "BionomialMinOption": "Binomial Tree Minimum Spread Option Model", "BionomialSpreadOption": "Binomial Tree Spread Option Model"}


def T(b):
    return X.TRUE if b else X.FALSE


def printed(o):
    """what summary() prints"""
    ev_ = G.ENG.path.events
    n = len(ev_)
    o.summary()
    return "\n".join(" ".join(str(a) for a in e[1]) for e in ev_[n:] if e[0] == "print")


def lines_of(text):
    return [q.strip() for q in text.splitlines()]


def prices(text):
    """the parts of the text after 'Option Price'"""
    return [q for q in lines_of(text.split("Option Price", 1)[1])] if "Option Price" in text else []


def check(c, arrays=(), nosig=False):
    name = c.cls.__name__

    def go(k):
        if not arrays and not nosig:
            stub_price(c)

        def run():
            given = {q: (Sym(v) if isinstance(v, X.E) else v) for q, v in c.args().items()}
            for q in arrays:
                given[q] = SymArray.make((M,), lambda ix, q=q: X.app(q + "_", *ix))
            if nosig:
                given["sigma"] = None
            o = c.cls(**given)
            text, twice, shown = str(o), o.summary(printer=False), printed(o)
            out = [("str is the summary", T(text == twice)), ("summary prints what str returns", T(shown.strip() == text.strip())),
                   ("title", T(TITLE[name] in lines_of(text)[0])), ("no other title", T(not any(v in text for v in TITLE.values() if v not in TITLE[name] and v != TITLE[name])))]
            vals = dict(given, **c.hidden)
            L = lines_of(text)
            for q in vals:
                if q in arrays and G.ENG.ctx.decide(X.lt(C(6), M)) is not False:
                    full, short = f"{q} = {vals[q]}", vals[q].round(2).token()
                    want = any(l == full or l.startswith(f"{q} = ") and (vals[q].token() in l or short in l) for l in L)
                    out.append((f"line for {q}", T(want)))
                    continue
                out.append((f"{q} = its value", T(f"{q} = {vals[q]}" in L)))
            out.append(("one line per parameter", T(len([l for l in L if l.split(" = ")[0] in vals and " = " in l]) == len(vals))))
            pr = prices(text)
            if nosig:
                out.append(("no price without a volatility", T(not any("call" in l and "⟦" in l for l in pr))))
            else:
                for m in ("call", "put") if c.put else ("call",):
                    v = getattr(o, m)()
                    if arrays:
                        short = v.round(2)
                        good = [short.round(2).token(), short.token()]
                        hit = [l for l in pr if l.startswith(m) and any(g in l for g in good)]
                    else:
                        trig = None
                        if isinstance(v, dict):
                            v, trig = v["OptionPrice"], v["TriggerPrice"]
                        hit = [l for l in pr if l.startswith(m) and f"{round(v, 6)}" in l]
                        if trig is not None:
                            out.append((f"{m} trigger price", T(any(f"{round(trig, 6)}" in l for l in hit))))
                    out.append((f"{m} price line", T(len(hit) == 1)))
                    ty = c.fixed.get("type", c.fixed.get("otype"))
                    if ty:
                        out.append((f"{m} line names the exercise type", T(len(hit) == 1 and ty in hit[0])))
            if name == "RollGeskeWhaleyOption":
                out.append(("exercise advice", T(any("Optimal" in l and l.endswith(str(bool(o.is_call_optimal()))) for l in L))))
            rep = repr(o)
            if not arrays:
                got = dict(o.get_params())
                out.append(("repr is the class name applied to the parameters", T(rep.replace(" ", "").replace("'", "") == f"{name}({','.join(str(v) for v in got.values())})".replace(" ", ""))))
                out.append(("get_params holds the given values", X.and_(*[same_value(got[q], vals[q]) if q in got else X.FALSE for q in vals])))
            else:
                out.append(("repr names the class", T(rep.startswith(name + "(") and rep.endswith(")"))))
            return out
        k.verify(run, lambda p: p.value, theory(), hyps=[X.lt(X.ONE, M)] if arrays else (), witness=False, reach=False, defs=False, branch_ms=60,
                 case=lambda env, p: [["report", rtcase(c, arrays=list(arrays), seed=s, nosig=nosig)] for s in (1, 2, 3)],
                 what=name + (" arrays " + ",".join(arrays) if arrays else "") + (" without sigma" if nosig else ""))
    return go


for _c in ALL:
    task(_c.name)(check(_c))
    if "sigma" in _c.params:
        task(_c.name + " without sigma")(check(_c, (), True))
for _n in ("GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption", "SpreadApproxOption"):
    _c = BY[_n]
    for _s in (tuple(_c.params), (_c.params[0],), tuple(_c.params[1::2])):
        task(f"{_n} arrays {','.join(_s)}")(check(_c, _s))
