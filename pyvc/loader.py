"""Mechanical extraction: the repository's modules, transformed and executed symbolically.

Every run reads the current source files below REPO, parses them and rewrites
only: float literals (to exact rationals), true division (so that int/int is
exact), subscripts, `in`, `.get`/`.pop`/`.setdefault` (so that a native
dictionary or set looked up with a symbolic key compares it with every key),
comprehensions, and `for`/`while` loops (so that a loop over a symbolic
range is summarised instead of unrolled).  Docstrings, comments and type
annotations are dropped by parsing.  Imports of numpy, pandas and scipy resolve
to the contract shims; plotting, progress bars and multiprocessing are stubs.
"""
import ast
import builtins as _b
import os
import sys
import types

from .core import Num, Sym, Unsupported, ctx, frac, num

REPO = os.environ.get("PYVC_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_code_cache = {}


def lit_name(node_value):
    return ast.Call(
        func=ast.Attribute(value=ast.Name(id="pv__", ctx=ast.Load()), attr="lit", ctx=ast.Load()),
        args=[ast.Constant(value=repr(node_value))], keywords=[])


def pvcall(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="pv__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


def _is_pv(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "pv__"


def _is_lit(x):
    return (_is_pv(x) and x.func.attr == "lit") or (isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant))


def _loads(x):
    for y in ast.walk(x):
        if hasattr(y, "ctx"):
            y.ctx = ast.Load()
    return x


class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def stored_names(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return v.names


class BreakFix(ast.NodeTransformer):
    """break of this loop -> __L.brk(); continue.   return -> unsupported"""

    def __init__(self, lname):
        self.l = lname
        self.has_return = False

    def visit_For(self, n):
        n.body = [self.inner(x) for x in n.body]
        return n
    visit_While = visit_For

    def inner(self, x):
        for y in ast.walk(x):
            if isinstance(y, ast.Return):
                self.has_return = True
        return x

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        self.has_return = True
        return n

    def visit_Break(self, n):
        return [ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=self.l, ctx=ast.Load()), attr="brk", ctx=ast.Load()),
                                  args=[], keywords=[])), ast.Continue()]


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.cls = []
        self.fnlocals = []

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            if n.value != n.value or n.value in (float("inf"), float("-inf")):
                return n
            return ast.copy_location(lit_name(n.value), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                parts.append(self.visit(v.value))
            else:
                return n
        return ast.copy_location(pvcall("fstr", *parts), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            parts = [x.value if isinstance(x, ast.Starred) else ast.List(elts=[x], ctx=ast.Load()) for x in n.elts]
            return ast.copy_location(pvcall("joined", *parts), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(pvcall("div", n.left, n.right), n)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.List):
            return ast.copy_location(pvcall("listmul", n.left, n.right), n)
        if isinstance(n.op, ast.Mult) and isinstance(n.right, ast.List):
            return ast.copy_location(pvcall("listmul", n.right, n.left), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Slice) or any(isinstance(x, ast.Slice) for x in getattr(n.slice, "elts", ())):
            return n
        if isinstance(n.slice, ast.Constant) or _is_lit(n.slice):
            return n
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(pvcall("item", n.value, n.slice), n)
        if not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n.value) if not _is_pv(x)):
            import copy
            n.slice = pvcall("key", _loads(copy.deepcopy(n.value)), n.slice)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(pvcall("isin" if isinstance(n.ops[0], ast.In) else "notin", n.left, n.comparators[0]), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if (isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and n.args
                and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords)):
            return ast.copy_location(pvcall("keyed", n.func.value, ast.Constant(value=n.func.attr), ast.Tuple(elts=n.args, ctx=ast.Load()),
                                            ast.Dict(keys=[ast.Constant(value=k.arg) for k in n.keywords], values=[k.value for k in n.keywords])), n)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n)):
            return n

        def lam(b):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b)
        return ast.copy_location(pvcall("ifexp", n.test, lam(n.body), lam(n.orelse)), n)

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        q = self.mod + ":" + ".".join(self.cls + [n.name])
        self.fnlocals.append(set(stored_names(n.body)))
        self.generic_visit(n)
        self.fnlocals.pop()
        body = n.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            i = 1
        n.body = body[:i] + [ast.Expr(pvcall("enter", ast.Constant(value=q)))] + body[i:]
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return ast.Pass()
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    # ---- comprehensions
    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        lam = _lambda(g.target)
        if lam is None:
            return n
        cond = None
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
        if kind == "dict":
            elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        else:
            elt = n.elt
        args = [ast.Constant(value=kind), lam(elt), g.iter]
        args.append(lam(cond) if cond is not None else ast.Constant(value=None))
        return ast.copy_location(pvcall("comp", *args), n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def grown(self, body, names):
        """local lists that grow in the loop body"""
        out = []
        for b in body:
            for x in ast.walk(b):
                if (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend")
                        and isinstance(x.func.value, ast.Name)):
                    v = x.func.value.id
                    if v not in names and v not in out and self.fnlocals and v in self.fnlocals[-1]:
                        out.append(v)
        return out

    # ---- loops
    def visit_For(self, n):
        import copy
        orig = copy.deepcopy(n)
        self.generic_visit(n)
        self.n += 1
        lname, iname = f"L__{self.n}", f"it__{self.n}"
        native = n
        names = stored_names([orig.target] + orig.body)
        names += self.grown(orig.body, names)
        sym_body = copy.deepcopy(n.body)
        bf = BreakFix(lname)
        sym_body = _flat([bf.visit(s) for s in sym_body])
        if bf.has_return or n.orelse:
            # summarising such a loop is outside the engine's reach
            native = copy.deepcopy(n)
            native.iter = pvcall("need_concrete", n.iter)
            return native
        setup = ast.Assign(targets=[ast.Name(id=iname, ctx=ast.Store())], value=pvcall("iter", n.iter))
        native.iter = ast.Name(id=iname, ctx=ast.Load())
        tup_store = ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())
        mk = ast.Assign(targets=[ast.Name(id=lname, ctx=ast.Store())],
                        value=pvcall("loop", ast.Constant(value=f"{self.mod}#{self.n}"),
                                     ast.Name(id=iname, ctx=ast.Load()),
                                     ast.List(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load()),
                                     ast.Call(func=ast.Name(id="locals", ctx=ast.Load()), args=[], keywords=[])))
        w = ast.While(
            test=_lcall(lname, "next"),
            body=[ast.Assign(targets=[tup_store], value=_lcall(lname, "load")),
                  ast.Assign(targets=[copy.deepcopy(orig.target)], value=_lcall(lname, "item")),
                  ast.Try(body=sym_body,
                          handlers=[ast.ExceptHandler(
                              type=ast.Attribute(value=ast.Name(id="pv__", ctx=ast.Load()), attr="PathEnd", ctx=ast.Load()),
                              name=None, body=[ast.Expr(_lcall(lname, "dead"))])],
                          orelse=[],
                          finalbody=[ast.Expr(ast.Call(
                              func=ast.Attribute(value=ast.Name(id=lname, ctx=ast.Load()), attr="record", ctx=ast.Load()),
                              args=[ast.Call(func=ast.Name(id="locals", ctx=ast.Load()), args=[], keywords=[])],
                              keywords=[]))])],
            orelse=[])
        fin = ast.Assign(targets=[copy.deepcopy(tup_store)], value=_lcall(lname, "final"))
        cond = ast.If(test=pvcall("concrete", ast.Name(id=iname, ctx=ast.Load())), body=[native], orelse=[mk, w, fin])
        return [setup, cond]

    def visit_While(self, n):
        import copy
        orig = copy.deepcopy(n)
        self.generic_visit(n)
        self.n += 1
        lname = f"L__{self.n}"
        if n.orelse:
            return n
        names = stored_names(orig.body)
        names += self.grown(orig.body, names)
        sym_body = copy.deepcopy(n.body)
        bf = BreakFix(lname)
        sym_body = _flat([bf.visit(s) for s in sym_body])
        if bf.has_return:
            return n
        loc = ast.Call(func=ast.Name(id="locals", ctx=ast.Load()), args=[], keywords=[])

        def test():
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=copy.deepcopy(n.test))

        def lc(attr, *args):
            return ast.Call(func=ast.Attribute(value=ast.Name(id=lname, ctx=ast.Load()), attr=attr, ctx=ast.Load()),
                            args=list(args), keywords=[])
        mk = ast.Assign(targets=[ast.Name(id=lname, ctx=ast.Store())],
                        value=pvcall("wloop", ast.Constant(value=f"{self.mod}#{self.n}"), test(),
                                     ast.List(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load())))
        tup = ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())
        native = ast.While(test=lc("native", test()), body=n.body, orelse=[])
        pe = ast.Attribute(value=ast.Name(id="pv__", ctx=ast.Load()), attr="PathEnd", ctx=ast.Load())
        w = ast.While(
            test=lc("next"),
            body=[ast.Assign(targets=[copy.deepcopy(tup)], value=lc("load")),
                  ast.Try(body=[ast.If(test=ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(n.test)),
                                       body=[ast.Expr(lc("exits")), ast.Continue()], orelse=[])] + sym_body,
                          handlers=[ast.ExceptHandler(type=pe, name=None, body=[ast.Expr(lc("dead"))])],
                          orelse=[], finalbody=[ast.Expr(lc("record", copy.deepcopy(loc)))])],
            orelse=[])
        return [mk, native,
                ast.If(test=ast.Attribute(value=ast.Name(id=lname, ctx=ast.Load()), attr="symbolic", ctx=ast.Load()),
                       body=[ast.Expr(lc("begin", copy.deepcopy(loc))), w,
                             ast.Assign(targets=[copy.deepcopy(tup)], value=lc("final")),
                             ast.Expr(lc("assume_exit", test()))], orelse=[])]


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += x
        else:
            out.append(x)
    return out


def _lcall(l, a):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=l, ctx=ast.Load()), attr=a, ctx=ast.Load()), args=[], keywords=[])


def _lambda(target):
    def mk(argnames, body):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in argnames], kwonlyargs=[],
                                             kw_defaults=[], defaults=[]), body=body)
    if isinstance(target, ast.Name):
        return lambda e: mk([target.id], e)
    if isinstance(target, ast.Tuple) and all(isinstance(x, ast.Name) for x in target.elts):
        names = [x.id for x in target.elts]
        return lambda e: mk(["t__"], ast.Call(func=mk(names, e),
                                              args=[ast.Starred(value=ast.Name(id="t__", ctx=ast.Load()), ctx=ast.Load())],
                                              keywords=[]))
    return None


def source_path(modname):
    base = os.path.join(SRC, *modname.split("."))
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py"), True
    return base + ".py", False


def code_for(modname):
    path, pkg = source_path(modname)
    if modname in _code_cache:
        return _code_cache[modname]
    with open(path, encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    _code_cache[modname] = compile(tree, path, "exec")
    return _code_cache[modname]


class Stub:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"{self._n}.{a}")


ALLOWED = {"logging", "os", "sys", "re", "json", "abc", "functools", "warnings", "copy", "collections", "itertools",
           "typing", "time", "io", "inspect", "__future__", "datetime", "operator", "numbers", "contextlib",
           "concurrent", "concurrent.futures"}


class World:
    """one set of symbolically loaded modules (per path)"""

    def __init__(self, overrides=None):
        from . import builtin_shims, shim_np, shim_pd
        self.mods = {}
        self.over = {"numpy": shim_np.NP, "math": shim_np.MATH(), "pandas": shim_pd.PD, "scipy": shim_pd.SCIPY,
                     "itertools": shim_pd.ITERTOOLS, "scipy.linalg": shim_pd.LINALG, "scipy.stats": Stub("scipy.stats"), "scipy.stats.qmc": Stub("qmc")}
        bar = types.SimpleNamespace(tqdm=lambda it=None, *a, **k: it)       # a progress bar gives the elements it is given
        self.over.update({"tqdm.autonotebook": bar, "tqdm.auto": bar, "tqdm": bar})
        self.over.update(overrides or {})
        self.builtins = builtin_shims.make(self)
        self.stub_mods = {"ciceroscm.make_plots", "ciceroscm._version"}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = source_path(name)
        m = types.ModuleType(name)
        m.__file__ = path
        self.mods[name] = m
        if name in self.stub_mods:
            m.__getattr__ = lambda a: (lambda *x, **k: None)
            return m
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            return m       # package __init__ files are not executed: they only re-export
        m.__dict__["__builtins__"] = self.builtins
        from . import builtin_shims
        m.__dict__["pv__"] = builtin_shims.PV
        exec(code_for(name), m.__dict__)
        if "." in name:
            par, _, last = name.rpartition(".")
            setattr(self.load(par), last, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"].split(".")
            base = base[: len(base) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full in self.over:
            return self.over[full]
        top = full.split(".")[0]
        if top == "ciceroscm":
            m = self.load(full)
            for f in fromlist or ():
                if not hasattr(m, f):
                    p, _ = source_path(full + "." + f)
                    if os.path.exists(p):
                        setattr(m, f, self.load(full + "." + f))
            if not fromlist:
                return self.load(top)
            if hasattr(m, "__path__"):
                # re-exports of package __init__ files
                for f in fromlist:
                    if not hasattr(m, f):
                        self._reexport(full, m, f)
            return m
        if full in ALLOWED or top in ALLOWED:
            return _b.__import__(name, globals, locals, fromlist, level)
        return Stub(full)

    def _reexport(self, full, m, f):
        path, _ = source_path(full)
        tree = ast.parse(open(path, encoding="utf-8").read())
        for n in tree.body:
            if isinstance(n, ast.ImportFrom) and any((a.asname or a.name) == f for a in n.names):
                sub = self.imp(n.module or "", {"__package__": full}, None, [f], n.level)
                setattr(m, f, getattr(sub, f))
