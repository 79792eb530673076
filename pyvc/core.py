"""pyvc core: symbolic values, path contexts, decisions.

Numeric values are z3 terms over the mathematical integers / reals.  A branch on
a symbolic condition is decided by the current path (execution is replayed once
per path).  Nothing here knows about the code under verification.
"""
import sys
from fractions import Fraction

Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
import z3  # noqa: E402


SLOW = 1          # time factor: raised when unproved obligations are tried again


def tmo(ms):
    return int(ms * SLOW)


class Stop(BaseException):
    """base of all engine control-flow; never caught by repository code"""


class Unsupported(Stop):
    """a construct outside the engine's reach: the run is undecided, never a violation"""


class PathEnd(Stop):
    """this path ends here (end of an arbitrary loop iteration, or infeasible)"""


class NeedLoop(Stop):
    def __init__(self, key, prefix, rec):
        self.key, self.prefix, self.rec = key, prefix, rec


class Ctx:
    cur = None
    replay = False  # concrete mode

    def __init__(self, prefix, store):
        self.prefix = prefix          # list of forced decisions
        self.trace = []               # decisions taken so far
        self.pc = []                  # path condition (z3 Bool)
        self.alts = []                # alternative prefixes discovered
        self.store = store            # shared across paths (Explorer)
        self.skolems = []             # active loop skolems (z3 consts)
        self.known = {}               # ast id -> bool, syntactic memo
        self.keep = []
        self.counts = {}
        self.loopocc = 0
        self.solver = None
        self.isolver = None
        self.facts = []               # side facts (axiom instances), each z3 Bool
        self.factids = set()
        self.notes = []
        self.foreign_reads = []
        self.inputs = {}
        self.write_log = None
        self.binder = 0
        self.scope_base = 0
        self.sumdepth = 0
        self.locals = []
        self.substs = []

    # -- assumptions -----------------------------------------------------
    def assume(self, c):
        c = boolterm(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.known[c.get_id()] = True
        if z3.is_not(c):
            self.known[c.arg(0).get_id()] = False
        if z3.is_and(c):
            for ch in c.children():
                self.known[ch.get_id()] = True
        self.keep.append(c)
        self._sol().add(c)
        if not real_nonlinear(c):
            self._isol().add(c)

    def fact(self, f, force=False):
        if f.get_id() in self.factids:
            return
        self.factids.add(f.get_id())
        self.facts.append(f)
        if force or not has_nonlinear(f):
            self._sol().add(f)
            self._isol().add(f)

    def _isol(self):
        """only assumptions without products of reals: fast, used first"""
        if self.isolver is None:
            self.isolver = z3.Solver()
            self.isolver.set("timeout", tmo(2500))
            self.isolver.set("rlimit", 4000000)
        return self.isolver

    def _sol(self):
        if self.solver is None:
            self.solver = z3.SolverFor("ALL") if False else z3.Solver()
            self.solver.set("timeout", tmo(1500))
            self.solver.set("rlimit", 1500000)
        return self.solver

    def feasible(self, c):
        self.store.stats["branch_queries"] += 1
        if real_nonlinear(c):
            return True               # over-approximation: the proof query still has the whole path condition
        if _check(self._isol(), c) == z3.unsat:
            return False
        if real_free(c):
            return True
        return _check(self._sol(), c) != z3.unsat

    def entailed(self, c):
        """True if pc |= c is established quickly (else False: unknown)"""
        c = z3.simplify(self.now(boolterm(c)))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.known.get(c.get_id()) is True:
            return True
        self.store.stats["branch_queries"] += 1
        if _check(self._isol(), z3.Not(c)) == z3.unsat:
            return True
        if real_free(c):
            return False
        return _check(self._sol(), z3.Not(c)) == z3.unsat

    def now(self, c):
        for k, t in reversed(self.substs):
            c = z3.substitute(c, (k, t))
        return c

    def decide(self, c):
        c = z3.simplify(self.now(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k
        if z3.is_not(c):
            k = self.known.get(c.arg(0).get_id())
            if k is not None:
                return not k
        if self.locals:
            L = self.locals[-1]
            trace, prefix, alts = L.trace, L.prefix, L.alts
        else:
            if self.binder:
                if self.entailed(c):
                    return True
                if self.entailed(z3.Not(c)):
                    return False
                raise Unsupported(f"branch under a binder: {str(c)[:200]}")
            trace, prefix, alts = self.trace, self.prefix, self.alts
        i = len(trace)
        forced = False
        if i < len(prefix):
            v, forced = prefix[i] in (True, "t"), prefix[i] in ("t", "f")
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd()
            if t and f:
                alts.append(trace + [False])
                v = True
            else:
                v, forced = t, True
        trace.append(("t" if v else "f") if forced else v)
        if len(trace) > 400:
            raise Unsupported("too many branch decisions on one path")
        if self.locals and not forced:
            self.locals[-1].conds.append(c if v else z3.Not(c))
        self.assume(c if v else z3.Not(c))
        self.known[c.get_id()] = v
        self.keep.append(c)
        return v

    # -- fresh symbols -----------------------------------------------------
    def fresh(self, name, sort, deterministic=True):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        nm = f"{name}!{n}" if n else name
        if self.skolems:
            nm = nm + "@" + ",".join(str(s) for s in self.skolems)
            f = z3.Function(nm, *[s.sort() for s in self.skolems], sort)
            return f(*self.skolems)
        return z3.Const(nm, sort)

    def fresh_fn(self, name, argsorts, sort):
        """function symbol depending also on the active skolems; returns python callable"""
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        nm = f"{name}!{n}" if n else name
        sk = list(self.skolems)
        if sk:
            nm = nm + "@" + ",".join(str(s) for s in sk)
        f = z3.Function(nm, *[s.sort() for s in sk], *argsorts, sort)
        return lambda *a: f(*sk, *a)


def _check(s, c):
    s.push()
    try:
        s.add(c)
        return s.check()
    finally:
        s.pop()


_rf = {}


def real_free(t):
    """no real-sorted subterm"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.sort().kind() == z3.Z3_REAL_SORT:
                return False
            todo.extend(x.children())
    return True


def real_nonlinear(t):
    """a product or quotient of two non-constant reals occurs"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            k = x.decl().kind()
            if x.sort().kind() == z3.Z3_REAL_SORT:
                if k == z3.Z3_OP_MUL and sum(not is_const(c) for c in x.children()) > 1:
                    return True
                if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not is_const(x.arg(1)):
                    return True
            todo.extend(x.children())
    return False


def ctx():
    c = Ctx.cur
    if c is None:
        raise RuntimeError("no symbolic context")
    return c


def has_nonlinear(t):
    """cheap syntactic test: product/quotient of two non-constants"""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not is_const(c) for c in x.children()) > 1:
                return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) and not is_const(x.arg(1)):
                return True
            todo.extend(x.children())
    return False


def is_const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


# ---------------------------------------------------------------- numbers
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def rv(fr):
    return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def to_real(e):
    if e.sort().kind() == z3.Z3_REAL_SORT:
        return e
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = to_real(e.arg(0))
        for c in e.children()[1:]:
            r = r + to_real(c)
        return r
    if k == z3.Z3_OP_SUB:
        r = to_real(e.arg(0))
        for c in e.children()[1:]:
            r = r - to_real(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -to_real(e.arg(0))
    if k == z3.Z3_OP_MUL:
        r = to_real(e.arg(0))
        for c in e.children()[1:]:
            r = r * to_real(c)
        return r
    if k == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), to_real(e.arg(1)), to_real(e.arg(2)))
    return z3.ToReal(e)


def _floor_const(q):
    """the integer part when the path condition fixes it"""
    if real_nonlinear(q == 0):
        return None
    c = ctx()
    s = c._sol()
    if s.check() != z3.sat:
        return None
    v = s.model().eval(z3.ToInt(q), model_completion=True)
    if not z3.is_int_value(v):
        return None
    v = v.as_long()
    return v if c.entailed(z3.And(q >= v, q < v + 1)) else None


class Sym:
    __slots__ = ()
    __array_ufunc__ = None


def is_num(x):
    import numbers
    return isinstance(x, Num) or isinstance(x, (bool, numbers.Number))


def num(x):
    """lift to Num"""
    if isinstance(x, Num):
        return x
    if isinstance(x, Bool):
        return Num(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), True)
    import numbers
    if isinstance(x, bool):
        return Num(z3.IntVal(int(x)), True, Fraction(int(x)))
    if isinstance(x, numbers.Integral):
        return Num(z3.IntVal(int(x)), True, Fraction(int(x)))
    if isinstance(x, Fraction):
        return Num(rv(x), False, x)
    if isinstance(x, numbers.Real):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf constant")
        f = frac(f)
        return Num(rv(f), False, f)
    if hasattr(x, "shape") and x.shape == () and hasattr(x, "item"):
        return num(x.item())
    raise Unsupported(f"not a number: {type(x)}")


def _rnd(s, o, op):
    if isinstance(o, Bool):
        return num(o)._bin(s, op)
    if type(o).__name__ == "ndarray":
        from . import arrays
        return arrays.ndop(lambda a, b: num(a)._bin(b, op), arrays.lift(o), s)
    return NotImplemented


IDIV = z3.Function("idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function("imod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def idiv_facts(a, b):
    """floor division by a positive number"""
    q, r = IDIV(a, b), IMOD(a, b)
    return [z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a)),
            z3.Implies(z3.And(b > 0, a >= 0, a < b), q == 0), z3.Implies(z3.And(b > 0, a >= b), q >= 1),
            z3.Implies(b > 0, a == b * q + r)]


def idivmod(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    c = ctx()
    fs = idiv_facts(a, b)
    for f in fs:
        c.fact(f, force=f is not fs[-1])
    return Num(IDIV(a, b), True), Num(IMOD(a, b), True)


class Num(Sym):
    __slots__ = ("e", "isint", "c")

    def __init__(self, e, isint=None, c=None):
        self.e = e
        self.isint = (e.sort().kind() == z3.Z3_INT_SORT) if isint is None else isint
        if c is None and is_const(e):
            c = Fraction(str(e))
        self.c = c

    @staticmethod
    def const(f, isint=False):
        return Num(z3.IntVal(int(f)) if isint else rv(f), isint, f)

    @property
    def real(self):
        return to_real(self.e)

    @property
    def T(self):
        return self

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        return hash(("Num", self.e.get_id()))

    def __repr__(self):
        return f"<{self.e if self.c is None else self.c}>"

    def __format__(self, spec):
        return repr(self)

    def _replist(self, o):
        from .seq import SymList
        if not self.isint:
            raise TypeError("can't multiply sequence by non-int of type 'float'")
        if self.c is not None:
            return o * int(self.c)
        if len(o) != 1:
            raise Unsupported("repeated list")
        return SymList(self, lambda j: o[0])

    def _bin(self, o, op):
        if not is_num(o) and not isinstance(o, Bool):
            if op == "*" and type(o) is list:
                return self._replist(o)
            if type(o).__name__ == "ndarray":
                from . import arrays
                return arrays.ndop(lambda a, b: num(a)._bin(b, op), self, arrays.lift(o))
            return NotImplemented
        o = num(o)
        both = self.isint and o.isint
        if self.c is not None and o.c is not None and op != "/":
            v = self.c + o.c if op == "+" else self.c - o.c if op == "-" else self.c * o.c
            return Num.const(v, both)
        if op == "/":
            if o.c is not None:
                if o.c == 0:
                    if self.c is not None:
                        raise ZeroDivisionError("division by zero")
                    raise Unsupported("division by constant zero")
                if self.c is not None:
                    return Num.const(self.c / o.c)
                return Num(rv(1 / o.c) * self.real if o.c != 1 else self.real, False)
            if self.c == 0:
                ctx().store.note_div(o.real)
                return Num.const(Fraction(0))
            ctx().store.note_div(o.real)
            return Num(self.real / o.real, False)
        a, b = (self.e, o.e) if both else (self.real, o.real)
        if op == "+":
            if o.c == 0:
                return self if both or not self.isint else Num(a, False)
            if self.c == 0:
                return o if both or not o.isint else Num(b, False)
            return Num(a + b, both)
        if op == "-":
            if o.c == 0:
                return self if both or not self.isint else Num(a, False)
            return Num(a - b, both)
        if (self.c == 0) or (o.c == 0):
            return Num.const(Fraction(0), both)
        if o.c == 1:
            return Num(a, both)
        if self.c == 1:
            return Num(b, both)
        return Num(a * b, both)

    def __add__(s, o): return s._bin(o, "+")
    def __sub__(s, o): return s._bin(o, "-")
    def __mul__(s, o): return s._bin(o, "*")
    def __truediv__(s, o): return s._bin(o, "/")
    def __radd__(s, o): return num(o)._bin(s, "+") if is_num(o) else _rnd(s, o, "+")
    def __rsub__(s, o): return num(o)._bin(s, "-") if is_num(o) else _rnd(s, o, "-")
    def __rmul__(s, o): return num(o)._bin(s, "*") if is_num(o) else _rnd(s, o, "*")
    def __rtruediv__(s, o): return num(o)._bin(s, "/") if is_num(o) else _rnd(s, o, "/")

    def __neg__(self):
        if self.c is not None:
            return Num.const(-self.c, self.isint)
        return Num(-self.e, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return Num.const(abs(self.c), self.isint)
        return Num(z3.If(self.e >= 0, self.e, -self.e), self.isint)

    def __pow__(self, o):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        if o.c is not None and o.c.denominator == 1 and 0 <= o.c <= 12:
            r = Num.const(Fraction(1), self.isint)
            for _ in range(int(o.c)):
                r = r * self
            return r
        if o.c is not None and o.c.denominator == 1 and -12 <= o.c < 0:
            return 1 / (self ** Num.const(-o.c, True))
        from . import funcs
        if o.c == Fraction(1, 2):
            return funcs.sqrt(self)
        return funcs.power(self, o)

    def __rpow__(self, o):
        return num(o) ** self

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        if self.c is not None and o.c is not None:
            return Num.const(Fraction(self.c // o.c), self.isint and o.isint)
        if self.isint and o.isint:
            if not ctx().entailed(o.e > 0):
                raise Unsupported("integer division by possibly non-positive number")
            if o.c is None:
                return idivmod(self.e, o.e)[0]
            return Num(self.e / o.e, True)
        q = self / o
        v = _floor_const(q.real)
        if v is not None:
            return Num.const(Fraction(v), False)
        return Num(z3.ToReal(z3.ToInt(q.real)), False)

    def __rfloordiv__(self, o):
        return num(o) // self

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        o = num(o)
        if self.c is not None and o.c is not None:
            return Num.const(self.c % o.c, self.isint and o.isint)
        if self.isint and o.isint:
            if not ctx().entailed(o.e > 0):
                raise Unsupported("modulo by possibly non-positive number")
            if o.c is None:
                return idivmod(self.e, o.e)[1]
            return Num(self.e % o.e, True)
        return self - o * (self // o)

    def __rmod__(self, o):
        return num(o) % self

    def _cmp(self, o, op):
        if not is_num(o):
            if type(o).__name__ == "ndarray":
                from . import arrays
                return arrays.ndop(lambda a, b: num(a)._cmp(b, op), self, arrays.lift(o))
            return NotImplemented
        o = num(o)
        if self.c is not None and o.c is not None:
            a, b = self.c, o.c
        elif self.isint and o.isint:
            a, b = self.e, o.e
        else:
            a, b = self.real, o.real
        r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
             ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
        return r if isinstance(r, bool) else Bool(r)

    def __lt__(s, o): return s._cmp(o, "<")
    def __le__(s, o): return s._cmp(o, "<=")
    def __gt__(s, o): return s._cmp(o, ">")
    def __ge__(s, o): return s._cmp(o, ">=")

    def __eq__(s, o):
        r = s._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(s, o):
        r = s._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return ctx().decide(self.e != 0)

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        if not self.isint and self.c is not None:
            raise TypeError("float used as an index")
        # case split over a small range
        c = ctx()
        if self.isint and (c.locals or not c.binder) and c.entailed(z3.And(self.e >= -64, self.e <= 64)):
            for v in list(range(0, 65)) + list(range(-1, -65, -1)):
                if c.feasible(self.e == v) and c.decide(self.e == v):
                    return v
        raise Unsupported(f"symbolic index used natively: {str(self.e)[:120]}")

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        raise Unsupported("int() of symbolic number (native)")

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported("float() of symbolic number (native)")

    # numpy object-array protocol
    def exp(self):
        from . import funcs
        return funcs.exp(self)

    def log(self):
        from . import funcs
        return funcs.log(self)

    def sqrt(self):
        from . import funcs
        return funcs.sqrt(self)

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def astype(self, t):
        return self

    def __round__(self, n=None):
        raise Unsupported("round of symbolic")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Bool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(s, o): return Bool(z3.And(s.e, boolterm(o)))
    __rand__ = __and__
    def __or__(s, o): return Bool(z3.Or(s.e, boolterm(o)))
    __ror__ = __or__
    def __invert__(s): return Bool(z3.Not(s.e))
    def __xor__(s, o): return Bool(z3.Xor(s.e, boolterm(o)))

    def __eq__(s, o):
        if isinstance(o, (bool, Bool)):
            return Bool(s.e == boolterm(o))
        if is_num(o):
            return num(s) == o
        return False

    def __ne__(s, o):
        r = s == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(("Bool", self.e.get_id()))

    def __add__(s, o): return num(s) + (num(o) if isinstance(o, Bool) else o)
    __radd__ = __add__
    def __mul__(s, o): return num(s) * (num(o) if isinstance(o, Bool) else o)
    __rmul__ = __mul__
    def __repr__(self): return f"<bool {self.e}>"
    def __deepcopy__(self, memo): return self


def boolterm(c):
    if isinstance(c, Bool):
        return c.e
    if isinstance(c, (bool,)):
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, Num):
        return c.e != 0
    if hasattr(c, "dtype") and c.shape == ():
        return z3.BoolVal(bool(c))
    raise Unsupported(f"not a condition: {type(c)}")


class Str(Sym):
    """symbolic string"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(x):
        if isinstance(x, Str):
            return x.e
        if isinstance(x, str):
            return z3.StringVal(x)
        return None

    def __eq__(s, o):
        t = Str.lift(o)
        return False if t is None else Bool(s.e == t)

    def __ne__(s, o):
        t = Str.lift(o)
        return True if t is None else Bool(s.e != t)

    def __hash__(self):
        return hash(("Str", self.e.get_id()))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("string slice step")
            lo = 0 if i.start is None else i.start
            if isinstance(lo, int) and lo >= 0 and isinstance(i.stop, int) and i.stop >= 0:
                return Str(z3.SubString(self.e, lo, i.stop - lo))
            if isinstance(lo, int) and lo >= 0 and i.stop is None:
                return Str(z3.SubString(self.e, lo, z3.Length(self.e)))
            raise Unsupported("string slice")
        if isinstance(i, int) and i >= 0:
            return Str(z3.SubString(self.e, i, 1))
        raise Unsupported("string index")

    def startswith(self, p):
        if isinstance(p, tuple):
            return Bool(z3.Or(*[z3.PrefixOf(Str.lift(q), self.e) for q in p]))
        return Bool(z3.PrefixOf(Str.lift(p), self.e))

    def endswith(self, p):
        if isinstance(p, tuple):
            return Bool(z3.Or(*[z3.SuffixOf(Str.lift(q), self.e) for q in p]))
        return Bool(z3.SuffixOf(Str.lift(p), self.e))

    def __contains__(self, p):
        return bool(Bool(z3.Contains(self.e, Str.lift(p))))

    def __len__(self):
        raise Unsupported("len of symbolic string (native)")

    def __add__(s, o): return Str(z3.Concat(s.e, Str.lift(o)))
    def __radd__(s, o): return Str(z3.Concat(Str.lift(o), s.e))
    def __repr__(self): return f"<str {self.e}>"
    def __format__(self, spec): return repr(self)
    def __deepcopy__(self, memo): return self

    def __getattr__(self, n):
        raise Unsupported(f"string method {n}")
