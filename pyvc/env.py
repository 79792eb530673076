"""The two modes of a contract harness.

A harness is written once.  SymEnv: inputs are symbolic, the modules are the
mechanically transformed repository sources, every env.eq/le/check is a proof
obligation.  ConcEnv: inputs are numbers (seeded samples, or the solver's
countermodel), the modules are the real ones, every env.eq/le/check is
evaluated.
"""
import importlib
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np


class AnchorMissing(Exception):
    """the harness cannot attach to the code (renamed internals): undecided, not a violation"""


class Reject(Exception):
    """sampled input outside the precondition"""


class Failure(Exception):
    pass


# =============================================================== symbolic
class SymEnv:
    symbolic = True

    def __init__(self, c, explorer, overrides=None):
        from . import loader
        self.c, self.ex = c, explorer
        self.results = []
        self.world = loader.World(overrides)
        c.store_solves = []
        self.pathno = explorer.store.stats["paths"]
        self.covered = None
        self.inputs = {}
        self.soft = False      # obligations about how a result is achieved: unproved leaves the bounded check, no alarm

    # ---- modules
    def mod(self, name):
        try:
            return self.world.load("ciceroscm." + name if name else "ciceroscm")
        except FileNotFoundError as e:
            raise AnchorMissing(str(e))

    def get(self, o, name):
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise AnchorMissing(str(e))

    def set(self, o, name, v):
        if not hasattr(o, name):
            raise AnchorMissing(f"no attribute {name}")
        setattr(o, name, v)

    def setkey(self, d, k, v):
        if k not in d:
            raise AnchorMissing(f"no key {k}")
        d[k] = v

    # ---- inputs
    def real(self, name, lo=None, hi=None, nonzero=False, sample=None):
        import z3
        from .core import Num, num
        t = z3.Real(name)
        v = Num(t, False)
        self.inputs[name] = ("real", v)
        if lo is not None:
            self.c.assume(t >= num(lo).real)
        if hi is not None:
            self.c.assume(t <= num(hi).real)
        if nonzero:
            self.c.assume(t != 0)
        return v

    def pos(self, name, lo=1e-3, hi=1e3):
        """any positive real (sampled in [lo, hi])"""
        import z3
        v = self.real(name)
        self.c.assume(v.e > 0)
        return v

    def anyreal(self, name, lo=-10, hi=10):
        """any real (sampled in [lo, hi])"""
        return self.real(name)

    def int(self, name, lo=None, hi=None, slo=None, shi=None):
        import z3
        from .core import Num
        t = z3.Int(name)
        v = Num(t, True)
        self.inputs[name] = ("int", v)
        if lo is not None:
            self.c.assume(t >= lo)
        if hi is not None:
            self.c.assume(t <= hi)
        return v

    def arr(self, name, n, lo=None, hi=None, positive=False, slo=-3.0, shi=3.0):
        """array input of length n; element range is a precondition when lo/hi/positive are given"""
        import z3
        from .core import Num, num
        from .arrays import Arr, obj
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        c = self.c

        def el(i):
            t = f(num(i).e)
            if lo is not None:
                c.fact(t >= num(lo).real)
            if hi is not None:
                c.fact(t <= num(hi).real)
            if positive:
                c.fact(t > 0)
            return Num(t, False)
        self.inputs[name] = ("arr", (f, n))
        n = num(n)
        if n.c is not None:
            out = obj((int(n.c),))
            for i in range(int(n.c)):
                out[i] = el(i)
            return out
        return Arr((n,), el)

    def ymap(self, name, y0, y1, **k):
        """dictionary / series from the years y0..y1 to numbers"""
        import z3
        from .core import Num, num
        from .frames import YSer
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        c, lo, hi, positive = self.c, k.get("lo"), k.get("hi"), k.get("positive")

        def el(i):
            t = f(num(i).e)
            if lo is not None:
                c.fact(t >= num(lo).real)
            if hi is not None:
                c.fact(t <= num(hi).real)
            if positive:
                c.fact(t > 0)
            return Num(t, False)
        self.inputs[name] = ("ymap", (f, num(y0), num(y1)))
        return YSer(el, y0, y1)

    def yframe(self, name, cols, y0, y1, **k):
        from .frames import YFrame
        kw = {c: dict(k, **(cols[c] if isinstance(cols, dict) else {})) for c in cols}
        return YFrame({c: self.ymap(f"{name}.{c}", y0, y1, **kw[c]) for c in cols}, y0, y1)

    def gastable(self, rows):
        """table of gas parameters: {gas: {column: value}} (a real pandas table of symbolic cells)"""
        import pandas
        cols = list(next(iter(rows.values())))
        df = pandas.DataFrame({c: pandas.Series([rows[g][c] for g in rows], index=list(rows), dtype=object) for c in cols})
        return df

    def rowtable(self, rows, names):
        from .frames import RowTable
        return RowTable(rows, names)

    def bool(self, name):
        import z3
        from .core import Bool
        t = z3.Bool(name)
        self.inputs[name] = ("bool", Bool(t))
        return Bool(t)

    def choice(self, name, options):
        import z3
        from .core import Num
        t = z3.Int("choice." + name)
        self.inputs[name] = ("choice", (Num(t, True), options))
        self.c.assume(z3.And(t >= 0, t < len(options)))
        for i in range(len(options) - 1):
            if self.c.decide(t == i):
                return options[i]
        self.c.assume(t == len(options) - 1)
        return options[-1]

    def string(self, name, samples):
        """any string"""
        import z3
        from .core import Str
        t = z3.String(name)
        self.inputs[name] = ("string", t)
        return Str(t)

    def assume(self, cond):
        from .core import boolterm
        self.c.assume(boolterm(cond))

    # ---- spec language
    def sum(self, lo, hi, f):
        from .seq import Sum
        from .explore import run_merged
        return Sum(lo, hi, lambda j: run_merged(lambda: f(j)))

    def exp(self, x):
        from . import funcs
        from .arrays import unop
        return unop(x, funcs.exp)

    def log(self, x):
        from . import funcs
        return funcs.log(x)

    def sqrt(self, x):
        from . import funcs
        return funcs.sqrt(x)

    def ite(self, c, a, b):
        from .arrays import ite
        from .core import Bool
        return ite(c if isinstance(c, (bool, Bool)) else c != 0, a, b)

    def max(self, a, b):
        from .shim_np import smax
        return smax(a, b)

    def min(self, a, b):
        from .shim_np import smin
        return smin(a, b)

    def lit(self, s):
        from .core import Num
        return Num.const(Fraction(str(s)))

    def elem(self, a, i):
        from .arrays import Arr, conc_get
        from .core import num
        from .seq import SymSeq
        if isinstance(a, SymSeq):
            return a.get(num(i))
        if isinstance(a, Arr):
            return a.at(i)
        if num(i).c is not None:
            return a[int(num(i).c)]
        return conc_get(a, [num(i)])

    def length(self, a):
        if hasattr(a, "pv_len"):
            return a.pv_len()
        if isinstance(a, (list, tuple)):
            from .core import num
            return num(len(a))
        return a.shape[0]

    def lemma(self, cond):
        """solver hint: proved first, then used"""
        from .core import boolterm
        t = boolterm(cond)
        self._check("lemma", t, lemma=True)
        self.c.assume(t)

    def abstract(self, o, name, spec, pos=False):
        """callee by contract: the method becomes an uninterpreted function of its argument (its own contract is proved
        separately); returns the function for use in the specification"""
        import z3
        from .core import Num, num
        if not callable(getattr(o, name, None)):
            raise AnchorMissing(f"no method {name}")
        f = z3.Function("m." + name, z3.RealSort(), z3.RealSort())
        c = self.c

        def g(*a, **k):
            x = (list(a) + list(k.values()) + [0])[0]
            t = f(num(x).real)
            if pos:
                c.fact(t > 0)
            return Num(t, False)
        setattr(o, name, g)
        return g

    # ---- obligations
    def _check(self, name, goal, lemma=False):
        from .prove import Prover, instance_facts
        c = self.c
        only = os.environ.get("PYVC_ONLY")
        if only and only not in name:
            return None
        instance_facts(c, [goal] + c.pc)
        t0 = time.time()
        p = Prover(c)
        r = p.prove(goal)
        c.store.stats["solver_s"] += time.time() - t0
        model = None
        if r.status != "proved":
            model = self.extract(r.model)
            if self.soft:
                self.ex.undecided.append(f"not proved for this way of writing it: {name}")
                return r
        self.results.append({"name": name, "path": self.pathno, "status": r.status, "backend": r.backend,
                             "time": round(r.time, 3), "model": model,
                             "goal": str(goal)[:600] if r.status != "proved" else None})
        return r

    def eq(self, name, a, b, rtol=1e-8, atol=1e-9):
        from .core import num, Bool, boolterm, is_num
        if isinstance(a, (bool, Bool)) or isinstance(b, (bool, Bool)):
            return self._check(name, boolterm(a) == boolterm(b))
        if not (is_num(a) and is_num(b)):
            import z3
            return self._check(name, z3.BoolVal(a is b or (isinstance(a, str) and a == b)))
        a, b = num(a), num(b)
        if a.isint and b.isint:
            return self._check(name, a.e == b.e)
        return self._check(name, a.real == b.real)

    def text(self, name, value, *parts):
        """the text is made of these pieces"""
        import z3
        from .seq import SFmt, fmt
        from .core import Num, num
        want = fmt(*parts)
        a = value.parts if isinstance(value, SFmt) else [value]
        b = want.parts if isinstance(want, SFmt) else [want]
        if len(a) != len(b) or any(isinstance(x, Num) != isinstance(y, Num) or (isinstance(x, str) and x != y) for x, y in zip(a, b)):
            return self._check(name, z3.BoolVal(False))
        return self._check(name, z3.And(z3.BoolVal(True), *[x.e == y.e for x, y in zip(a, b) if isinstance(x, Num)]))

    def le(self, name, a, b, rtol=1e-8, atol=1e-9):
        from .core import num
        a, b = num(a), num(b)
        if a.isint and b.isint:
            return self._check(name, a.e <= b.e)
        return self._check(name, a.real <= b.real)

    def check(self, name, cond):
        from .core import boolterm
        return self._check(name, boolterm(cond))

    def implies(self, a, b):
        import z3
        from .core import Bool, boolterm
        return Bool(z3.Implies(boolterm(a), boolterm(b)))

    def forall(self, lo, hi, f, name="i"):
        """f(i) states obligations for an arbitrary lo <= i < hi"""
        import z3
        from .core import Num, num
        from .seq import index_var, scope
        lo, hi = num(lo), num(hi)
        if lo.c is not None and hi.c is not None and hi.c - lo.c <= 64:
            for i in range(int(lo.c), int(hi.c)):
                f(num(i))
            return
        q = index_var(f"all.{name}!{len(self.results)}")
        with scope(z3.And(q >= lo.e, q < hi.e)):
            if not self.c.feasible(z3.BoolVal(True)):
                return
            f(Num(q, True))

    def cover(self):
        """vacuity: the preconditions must be satisfiable"""
        import z3
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self.c.pc)
        r = s.check()
        self.covered = str(r)
        self.ex.covered = getattr(self.ex, "covered", None) or str(r)
        if r == z3.unsat:
            from .core import PathEnd
            raise PathEnd()

    def done(self):
        for kind, t in self.c.defined[:0]:
            pass

    def raised(self, e):
        if isinstance(e, AnchorMissing):
            self.ex.undecided.append("anchor missing: " + str(e))
            return
        import z3
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self.c.pc, *self.c.facts)
        r = s.check()
        if r == z3.unsat:
            return
        tb = traceback.extract_tb(e.__traceback__)
        if os.environ.get("PYVC_TB"):
            traceback.print_exception(e)
        where = [f for f in tb if "/src/ciceroscm/" in f.filename]
        inrepo = bool(where) and tb[-1].filename == where[-1].filename
        if not inrepo:
            self.ex.undecided.append(f"harness could not run symbolically: {type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}")
            return
        self.results.append({"name": f"no {type(e).__name__} is raised", "path": self.pathno,
                             "status": "raises", "backend": "z3", "time": 0.0,
                             "model": self.extract(s.model()) if r == z3.sat else None,
                             "goal": f"{type(e).__name__}: {e} at {where[-1].filename}:{where[-1].lineno}"})

    def extract(self, m):
        if m is None:
            return None
        import z3

        def val(t):
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(12).as_fraction())
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            return None
        out = {}
        part = {}       # without the values the solver left open: those are sampled when the model is replayed
        from .core import num

        def at(f, i):
            """value of f(i) if the model names the point, else None"""
            fi = m[f]
            if fi is None or not hasattr(fi, "num_entries"):
                return None
            for k in range(fi.num_entries()):
                e = fi.entry(k)
                if z3.is_int_value(e.arg_value(0)) and e.arg_value(0).as_long() == i:
                    return val(e.value())
            return None
        for n, (kind, v) in self.inputs.items():
            try:
                if kind in ("real", "int", "bool"):
                    out[n] = val(v.e)
                    part[n] = out[n] if kind != "real" or m[v.e.decl()] is not None else None
                elif kind == "choice":
                    out[n] = val(v[0].e)
                elif kind == "string":
                    out[n] = m.eval(v, model_completion=True).as_string()
                elif kind == "ymap":
                    f, y0, y1 = v
                    a, b = val(y0.e), val(y1.e)
                    if a is not None and b is not None and 0 <= b - a <= 5000:
                        out[n] = [val(f(z3.IntVal(i))) for i in range(a, b + 1)]
                        part[n] = [at(f, i) for i in range(a, b + 1)]
                elif kind == "arr":
                    f, ln = v
                    k = val(num(ln).e)
                    if k is not None and 0 <= k <= 5000:
                        out[n] = [val(f(z3.IntVal(i))) for i in range(k)]
                        part[n] = [at(f, i) for i in range(k)]
            except Exception:  # pylint: disable=broad-except
                pass
            if n not in part and n in out:
                part[n] = out[n]
        out["(named points only)"] = part
        out["(shape only)"] = {n: out[n] for n, (kind, v) in self.inputs.items() if n in out and kind in ("int", "bool", "choice", "string")}
        return out


# =============================================================== concrete
class ConcEnv:
    symbolic = False
    soft = False

    def __init__(self, rng, given=None):
        self.rng = rng
        self.given = given or {}
        self.inputs = {}
        self.failures = []
        self.evals = 0

    def mod(self, name):
        try:
            return importlib.import_module("ciceroscm." + name if name else "ciceroscm")
        except ModuleNotFoundError as e:
            raise AnchorMissing(str(e))

    get = SymEnv.get
    set = SymEnv.set
    setkey = SymEnv.setkey

    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, nonzero=False, sample=None):
        v = self.inputs.get(name, self.given.get(name))
        if v is None:
            a, b = sample or (lo if lo is not None else -10.0, hi if hi is not None else 10.0)
            r = self.rng.random()
            if r < 0.06 and lo is not None and not sample:
                v = float(lo)
            elif r < 0.12 and hi is not None and not sample:
                v = float(hi)
            elif r < 0.2 and a <= 0 <= b and not nonzero:
                v = 0.0
            else:
                v = self.rng.uniform(float(a), float(b))
        if lo is not None and v < lo or hi is not None and v > hi or nonzero and v == 0:
            raise Reject()
        return self._rec(name, float(v))

    def pos(self, name, lo=1e-3, hi=1e3):
        v = self.inputs.get(name, self.given.get(name))
        if v is None:
            v = math.exp(self.rng.uniform(math.log(lo), math.log(hi)))
        if not v > 0:
            raise Reject()
        return self._rec(name, float(v))

    def anyreal(self, name, lo=-10, hi=10):
        v = self.inputs.get(name, self.given.get(name))
        if v is None:
            v = 0.0 if self.rng.random() < 0.1 else self.rng.uniform(lo, hi)
        if abs(v) > 1e12:
            raise Reject()
        return self._rec(name, float(v))

    def int(self, name, lo=None, hi=None, slo=None, shi=None):
        v = self.inputs.get(name, self.given.get(name))
        if v is None:
            v = self.rng.randint(slo if slo is not None else lo, shi if shi is not None else hi)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        if shi is not None and v > 50 * max(1, shi):
            raise Reject()
        return self._rec(name, int(v))

    def arr(self, name, n, lo=None, hi=None, positive=False, slo=-3.0, shi=3.0):
        n = int(n)
        v = self.inputs.get(name, self.given.get(name))
        a = lo if lo is not None else (max(slo, 1e-6) if positive else slo)
        b = hi if hi is not None else shi
        if v is None or len(v) < n or any(x is None for x in v):
            v = list(v or [])[:n]
            v = [x if x is not None else self.rng.uniform(a, b) for x in v]
            v += [self.rng.uniform(a, b) for _ in range(n - len(v))]
        v = np.array([float(x) for x in v[:n]])
        if lo is not None and (v < lo).any() or hi is not None and (v > hi).any() or positive and (v <= 0).any():
            raise Reject()
        self.inputs[name] = v.tolist()
        return v.copy()

    def ymap(self, name, y0, y1, **k):
        v = self.arr(name, int(y1) - int(y0) + 1, **k)
        return {int(y0) + i: float(x) for i, x in enumerate(v)}

    def yframe(self, name, cols, y0, y1, **k):
        import pandas
        kw = {c: dict(k, **(cols[c] if isinstance(cols, dict) else {})) for c in cols}
        return pandas.DataFrame({c: self.ymap(f"{name}.{c}", y0, y1, **kw[c]) for c in cols}, index=range(int(y0), int(y1) + 1))

    def gastable(self, rows):
        import pandas
        return pandas.DataFrame.from_dict(rows, orient="index")

    def rowtable(self, rows, names):
        import pandas
        return pandas.DataFrame(rows, columns=names)

    def bool(self, name):
        v = self.inputs.get(name, self.given.get(name))
        if v is None:
            v = self.rng.random() < 0.5
        return self._rec(name, bool(v))

    def choice(self, name, options):
        v = self.inputs.get(name, self.given.get(name))
        if v is None or not 0 <= v < len(options) or v != int(v):
            v = self.rng.randrange(len(options))
        v = int(v)
        self.inputs[name] = v
        return options[v]

    def string(self, name, samples):
        v = self.inputs.get(name, self.given.get(name))
        return self._rec(name, v if v is not None else self.rng.choice(samples))

    def assume(self, cond):
        if not cond:
            raise Reject()

    def sum(self, lo, hi, f):
        return math.fsum(f(j) for j in range(int(lo), int(hi)))

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def lit(self, s):
        return float(s)

    def elem(self, a, i):
        return a[int(i)]

    def abstract(self, o, name, spec, pos=False):
        return spec

    def length(self, a):
        return len(a)

    def lemma(self, cond):
        pass

    def _fail(self, name, detail):
        self.failures.append((name, detail))

    def eq(self, name, a, b, rtol=1e-8, atol=1e-9):
        self.evals += 1
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if not (a == b):
                self._fail(name, f"{a!r} != {b!r}")
            return
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape and a.shape != () and b.shape != ():
            self._fail(name, f"shapes {a.shape} {b.shape}")
            return
        bad = ~(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
        bad = bad & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
        if np.any(bad):
            self._fail(name, f"{_show(a, bad)} should equal {_show(b, bad)}")

    def text(self, name, value, *parts):
        self.eq(name, value, "".join(str(p) for p in parts))

    def le(self, name, a, b, rtol=1e-8, atol=1e-9):
        self.evals += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        bad = ~(a <= b + atol + rtol * np.maximum(np.abs(a), np.abs(b)))
        if np.any(bad):
            self._fail(name, f"{_show(a, bad)} should be at most {_show(b, bad)}")

    def check(self, name, cond):
        self.evals += 1
        if not bool(cond):
            self._fail(name, "condition is false")

    def implies(self, a, b):
        return not a or bool(b)

    def forall(self, lo, hi, f, name="i"):
        for i in range(int(lo), int(hi)):
            f(i)

    def cover(self):
        pass


def _show(a, bad):
    a, bad = np.broadcast_arrays(a, bad)
    if a.ndim == 0:
        return repr(float(a))
    i = np.argwhere(bad)[0]
    return f"[{','.join(map(str, i))}]={float(a[tuple(i)])!r}"
