"""Loads the real source of /repo/src/finoptions for symbolic execution.

Every run re-reads and re-parses the files.  The only rewriting is:
  * `for` / `while` statements and single-generator comprehensions go through
    hooks, so that a loop with a symbolic trip count is cut by an invariant
    (loops with a concrete trip count run as written);
  * a float literal is its exact decimal value, and int/int is the exact quotient;
  * a bare `except:` becomes `except Exception:`;
  * builtins that cannot take symbolic values (len, range, max, min, abs, ...)
    and external libraries (numpy, scipy, numdifftools, matplotlib, math) are
    replaced by shims that implement their contracts on symbolic values.
Nothing else is dropped or changed.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types
from fractions import Fraction
from . import expr as X
from . import engine as G
from .engine import Sym, SymBool, Unsupported, NeedSym, lift, mkbool, NUM
from . import arrays as A
from .arrays import SymArray, SymRange, cint, pyint, range_len
from . import loops as L

ROOT = os.environ.get("FINOPT_SRC", "/repo/src")
SOURCES = {}


# ------------------------------------------------------------------ transform
class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = []
        self.bad = None

    def addn(self, n):
        if n not in self.names and not n.startswith("_vc"):
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.addn(n.id)

    def visit_FunctionDef(self, n):
        self.addn(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_comp(self, n):
        # the first iterable is evaluated outside; walrus inside is not supported
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.addn(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp

    def visit_Import(self, n):
        for a in n.names:
            self.addn((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.addn(n.name)
        self.generic_visit(n)


def assigned(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return v.names


def nm(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def call(f, *a):
    return ast.Call(nm(f) if isinstance(f, str) else f, list(a), [])


def attr(o, a):
    return ast.Attribute(nm(o), a, ast.Load())


CONSUME = {"sum", "list", "tuple", "max", "min", "any", "all", "sorted", "dict", "set"}


def as_list(x):
    return x if isinstance(x, list) else [] if x is None else [x]


class Transform(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.infn = 0
        self.infstr = 0

    def visit_FunctionDef(self, node):
        # decorators, defaults and annotations are evaluated at definition time
        self.infn += 1
        node.body = [y for x in node.body for y in as_list(self.visit(x))]
        self.infn -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.infn += 1
        node.body = self.visit(node.body)
        self.infn -= 1
        return node

    def setnames(self, names, value):
        if not names:
            return ast.Expr(value)
        return ast.Assign([ast.Tuple([nm(n, ast.Store()) for n in names], ast.Store())], value)

    def visit_For(self, node):
        if not self.infn:
            self.generic_visit(node)
            return node
        names = assigned([node.target] + node.body)
        self.generic_visit(node)
        self.n += 1
        l, t = f"_vcL{self.n}", f"_vcT{self.n}"
        label = f"{self.fname}:{node.lineno}"
        tup = ast.Tuple([ast.Constant(x) for x in names], ast.Load())
        out = [ast.Assign([nm(l, ast.Store())], call("_vc_for", node.iter, ast.Constant(label), tup))]
        body = [ast.If(attr(l, "sym"), [self.setnames(names, call(attr(l, "enter")))], []),
                ast.Assign([node.target], nm(t))] + node.body
        orelse = node.orelse
        if orelse:
            orelse = [ast.Expr(call(attr(l, "noelse")))] + orelse
        out.append(ast.For(nm(t, ast.Store()), nm(l), body, orelse))
        out.append(ast.If(attr(l, "sym"), [self.setnames(names, call(attr(l, "leave")))], []))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_While(self, node):
        if not self.infn or node.orelse:
            self.generic_visit(node)
            return node
        names = assigned(node.body + [ast.Expr(node.test)])
        self.generic_visit(node)
        self.n += 1
        w, c = f"_vcW{self.n}", f"_vcC{self.n}"
        label = f"{self.fname}:{node.lineno}"
        tup = ast.Tuple([ast.Constant(x) for x in names], ast.Load())
        out = [ast.Assign([nm(w, ast.Store())], call("_vc_while", ast.Constant(label), tup))]
        body = [
            ast.If(call(attr(w, "head")), [self.setnames(names, call(attr(w, "vals_")))], []),
            ast.Try([ast.Assign([nm(c, ast.Store())], call("_vc_truth", node.test))],
                    [ast.ExceptHandler(nm("_vc_NeedSym"), None,
                                       [ast.Expr(call(attr(w, "go_sym"))), ast.Continue()])], [], []),
            ast.If(ast.UnaryOp(ast.Not(), call(attr(w, "tested"), nm(c))), [ast.Break()], []),
        ] + node.body
        out.append(ast.While(ast.Constant(True), body, []))
        out.append(ast.If(attr(w, "sym"), [ast.Expr(call(attr(w, "leave")))], []))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def comp(self, node, kind):
        if len(node.generators) != 1 or not self.infn:
            return None
        g = node.generators[0]
        if g.ifs or g.is_async:
            return None
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node)):
            return None
        if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(node)):
            return None
        if isinstance(g.target, ast.Name):
            fn = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), node.elt)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in g.target.elts], None, [], [], None, []),
                               node.elt)
            fn = ast.Lambda(ast.arguments([], [ast.arg("_vc_t")], None, [], [], None, []),
                            ast.Call(inner, [ast.Starred(nm("_vc_t"), ast.Load())], []))
        else:
            return None
        r = call("_vc_comp", fn, g.iter)
        ast.copy_location(r, node)
        ast.fix_missing_locations(r)
        return r

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return self.comp(node, "list") or node

    def visit_Call(self, node):
        if len(node.args) >= 1 and isinstance(node.args[0], ast.GeneratorExp) and isinstance(node.func, ast.Name) \
                and node.func.id in CONSUME:
            g = node.args[0]
            self.generic_visit(g)
            node.args[0] = self.comp(g, "gen") or g
            node.args[1:] = [self.visit(a) for a in node.args[1:]]
            return node
        self.generic_visit(node)
        return node

    def visit_Constant(self, node):
        if self.infn and isinstance(node.value, float) and not self.infstr:
            return ast.fix_missing_locations(ast.copy_location(call("_vc_lit", ast.Constant(node.value)), node))
        return node

    def visit_JoinedStr(self, node):
        self.infstr += 1
        self.generic_visit(node)
        self.infstr -= 1
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.infn and isinstance(node.op, ast.Div):
            return ast.fix_missing_locations(ast.copy_location(call("_vc_div", node.left, node.right), node))
        return node

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = ast.copy_location(nm("Exception"), node)
        self.generic_visit(node)
        return node


# ------------------------------------------------------------------ builtins
def vc_lit(v):
    """a float literal stands for its decimal value, exactly"""
    if G.ENG is None or v != v or v in (float("inf"), -float("inf")):
        return v
    return Sym(X.const(v))


def vc_div(a, b):
    if G.ENG is not None and type(a) is int and type(b) is int and b != 0:
        return Sym(X.const(Fraction(a, b)))
    return a / b


def vc_for(it, label, names):
    return L.ForLoop(it, label, names)


def vc_while(label, names):
    return L.WhileLoop(label, names)


def vc_truth(c):
    return bool(c)


def vc_comp(fn, it):
    s = L.sym_iter(it)
    if s is not None:
        n, f = s
        c = G.ENG.const_of(n)
        if c is None:
            return L.SymList(n, lambda e: fn(f(e)))
        return [fn(f(X.const(i))) for i in range(int(c))]
    if isinstance(it, SymRange):
        return [fn(x) for x in L.rng_list(it)]
    return [fn(x) for x in it]


def has_sym(*xs):
    return any(isinstance(x, (Sym, SymBool, SymArray)) for x in xs)


def b_len(x):
    if hasattr(x, "symlen"):
        return x.symlen()
    return len(x)


def b_range(*a):
    if not has_sym(*a):
        return range(*a)
    st = 1
    if len(a) == 1:
        lo, hi = X.ZERO, lift(a[0])
    else:
        lo, hi = lift(a[0]), lift(a[1])
        if len(a) == 3:
            st = cint(lift(a[2]))
            if st is None:
                raise Unsupported("symbolic range step")
    if lo.sort != "int" or hi.sort != "int":
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = range_len(lo, hi, st)
    cn, cl = cint(n), cint(lo)
    if cn is not None and cl is not None:
        return range(cl, cl + st * cn, st)
    return SymRange(lo, n, st)


def _ext(args, kw, which, real):
    xs = args
    if len(args) == 1:
        x = args[0]
        if isinstance(x, SymArray):
            return A.reduce_ext(x, None, which)
        if isinstance(x, (L.SymList, SymRange)):
            raise Unsupported("max/min of a symbolic sequence")
        xs = list(x)
    if kw or not any(isinstance(x, Sym) for x in xs) or not all(isinstance(x, (Sym,) + NUM) for x in xs):
        return real(*args, **kw)
    r = lift(xs[0])
    for x in xs[1:]:
        r = X.max_(r, lift(x)) if which == "max" else X.min_(r, lift(x))
    return Sym(r)


def b_max(*a, **k):
    return _ext(a, k, "max", max)


def b_min(*a, **k):
    return _ext(a, k, "min", min)


def b_sum(x, start=0):
    s = L.sym_iter(x)
    if s is not None and cint(s[0]) is None:
        n, f = s
        k = X.fresh("k", "int")
        en = G.ENG
        saved = en.ctx
        mark = len(en.stack)
        en.ctx = en.ctx.add(X.le(X.ZERO, k), X.lt(k, n))
        try:
            v = f(k)
            if isinstance(v, SymArray):
                raise Unsupported("sum of arrays")
            body = lift(v)
        finally:
            en.ctx = saved
        if len(en.stack) != mark:
            raise Unsupported("branch inside a symbolic sum")
        return Sym(X.summation(k, body, n)) + start
    if isinstance(x, SymArray) and x.ndim == 1:
        return A.reduce_sum(x, None) + start
    return sum(x, start)


class _Shim(type):
    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __instancecheck__(cls, o):
        return b_isinstance(o, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class b_float(float, metaclass=_Shim):
    _real = float

    @staticmethod
    def _conv(x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return Sym(lift(x))
        if isinstance(x, SymArray):
            return x.scalar_item()
        return float(x)


class b_int(int, metaclass=_Shim):
    _real = int

    @staticmethod
    def _conv(x=0, *a):
        if isinstance(x, Sym):
            if x.e.sort == "int":
                return x
            c = G.ENG.const_of(x.e)
            if c is not None:
                return int(c)
            raise Unsupported("int() of a symbolic real")
        if isinstance(x, SymArray):
            return b_int(x.scalar_item())
        return int(x, *a)


def b_enumerate(x, start=0):
    if L.sym_iter(x) is not None:
        return L.SymEnum(x, start)
    return enumerate(x, start)


def b_zip(*its, **k):
    if any(L.sym_iter(x) is not None for x in its):
        return L.SymZip(its)
    return zip(*its, **k)


def b_reversed(x):
    if isinstance(x, SymRange):
        return x.rev()
    if isinstance(x, SymArray):
        return x[::-1]
    if isinstance(x, L.SymList):
        return L.SymList(x.n, lambda e: x.item(X.sub(X.sub(x.n, X.ONE), e)))
    return reversed(x)


def b_isinstance(o, t):
    if isinstance(o, (Sym, SymBool)):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for x in ts:
            flat.extend(x if isinstance(x, tuple) else [x])
        for x in flat:
            if x is b_float or x is float:
                if isinstance(o, Sym) and o.e.sort == "real":
                    return True
            elif x is b_int or x is int:
                if isinstance(o, Sym) and o.e.sort == "int":
                    return True
            elif x is bool:
                if isinstance(o, SymBool):
                    return True
            elif x is complex:
                if isinstance(o, Sym) and o.e.sort == "complex":
                    return True
            elif getattr(x, "__module__", "") == "numbers":
                return True
        return False
    return isinstance(o, unshim(t))


def unshim(t):
    if isinstance(t, tuple):
        return tuple(unshim(x) for x in t)
    if isinstance(t, _Shim):
        return t._real
    return t


class b_list(list, metaclass=_Shim):
    _real = list

    @staticmethod
    def _conv(x=()):
        s = L.sym_iter(x)
        if s is not None and cint(s[0]) is None:
            return L.SymList(*s)
        if isinstance(x, L.SymList):
            return x
        return list(x)


def b_print(*a, **k):
    if G.ENG is not None and getattr(G.ENG, "path", None) is not None:
        G.ENG.path.events.append(("print", a, tuple(sorted(k.items()))))
        h = getattr(G.ENG, "on_print", None)
        if h is not None:
            h(a)


def b_map(f, *its):
    if len(its) == 1 and L.sym_iter(its[0]) is not None:
        return vc_comp(f, its[0])
    return map(f, *its)


SHIMS = {}


def register(name, mod):
    SHIMS[name] = mod


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top in SHIMS:
            if name not in SHIMS:
                raise ImportError(f"no shim for {name}")
            return SHIMS[name] if fromlist else SHIMS[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d.update(len=b_len, range=b_range, max=b_max, min=b_min, sum=b_sum, float=b_float, int=b_int,
             enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, isinstance=b_isinstance, list=b_list,
             print=b_print, map=b_map, __import__=vc_import,
             _vc_for=vc_for, _vc_while=vc_while, _vc_truth=vc_truth, _vc_comp=vc_comp, _vc_lit=vc_lit, _vc_div=vc_div, _vc_NeedSym=NeedSym)
    return d


BUILTINS = None


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global BUILTINS
        with open(self.path, encoding="utf8") as f:
            src = f.read()
        SOURCES[self.path] = src
        tree = ast.parse(src, self.path)
        tree = Transform(os.path.relpath(self.path, ROOT)).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        if BUILTINS is None:
            BUILTINS = make_builtins()
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "finoptions":
            return None
        base = os.path.join(ROOT, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            p = base + ".py"
            spec = importlib.machinery.ModuleSpec(name, Loader(p), origin=p)
        else:
            return None
        spec.has_location = True
        return spec


def install():
    from . import npshim          # registers the shims
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def load():
    install()
    import finoptions
    return finoptions
