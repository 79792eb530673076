"""numpy as seen by the verified code (contracts of the numpy functions used)."""
import builtins
from fractions import Fraction

import numpy as _np
import z3

from . import funcs
from .arrays import Arr, as_dim, bcast, binop, common_shape, ite, lift, ndop, obj, same_dim, unop
from .core import Bool, Num, Str, Unsupported, boolterm, ctx, is_num, num
from .seq import Sum, SymSeq, SymRange


def smax(a, b):
    a, b = num(a), num(b)
    if a.c is not None and b.c is not None:
        return a if a.c >= b.c else b
    return ite(a >= b, a, b)


def smin(a, b):
    a, b = num(a), num(b)
    if a.c is not None and b.c is not None:
        return a if a.c <= b.c else b
    return ite(a <= b, a, b)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(as_dim(x) for x in s)
    return (as_dim(s),)


def _full(shape, v):
    shape = _shape(shape)
    if builtins.all(isinstance(d, int) for d in shape):
        return obj(shape, v)
    return Arr(shape, lambda *i: v)


class _ND:
    """np.ndarray stand-in for isinstance"""


class MATH:
    """the math module on exact reals"""
    inf, nan = float("inf"), float("nan")
    pi, e = Num.const(Fraction("3.141592653589793")), Num.const(Fraction("2.718281828459045"))

    def exp(self, x): return funcs.exp(num(x))
    def expm1(self, x): return funcs.exp(num(x)) - 1
    def log(self, x, base=None): return funcs.log(num(x)) if base is None else funcs.log(num(x)) / funcs.log(num(base))
    def log1p(self, x): return funcs.log(num(x) + 1)
    def log10(self, x): return funcs.log(num(x)) / funcs.log(num(10))
    def log2(self, x): return funcs.log(num(x)) / funcs.log(num(2))
    def sqrt(self, x): return funcs.sqrt(num(x))
    def pow(self, x, y): return num(x) ** num(y)
    def fabs(self, x): return builtins.abs(num(x))
    def floor(self, x): return num(x) // 1

    def ceil(self, x): return -((-num(x)) // 1)

    def fsum(self, xs):
        from .builtin_shims import s_sum
        return s_sum(xs)

    def prod(self, xs):
        r = num(1)
        for x in xs:
            r = r * x
        return r

    def copysign(self, x, y):
        x, y = builtins.abs(num(x)), num(y)
        return ite(y >= 0, x, -x)

    def isnan(self, x):
        return NP.isnan(x)

    def __getattr__(self, n):
        raise Unsupported(f"math.{n}")


class _NP:
    pi = Num.const(Fraction("3.141592653589793"))
    ndarray = _ND
    float64 = float
    newaxis = None

    class integer:
        pass

    class floating:
        pass

    @property
    def nan(self):
        return NAN

    inf = float("inf")

    def zeros(self, shape, dtype=None):
        return _full(shape, num(Fraction(0)))

    def ones(self, shape, dtype=None):
        return _full(shape, num(Fraction(1)))

    def full(self, shape, v, dtype=None):
        return _full(shape, num(v))

    def empty(self, shape, dtype=None):
        shape = _shape(shape)
        f = ctx().fresh_fn("empty", [z3.IntSort()] * len(shape), z3.RealSort())
        if builtins.all(isinstance(d, int) for d in shape):
            out = obj(shape)
            for i in _np.ndindex(*shape):
                out[i] = Num(f(*[z3.IntVal(x) for x in i]), False)
            return out
        return Arr(shape, lambda *i: Num(f(*[num(x).e for x in i]), False))

    def zeros_like(self, a, dtype=None):
        a = lift(a)
        if not hasattr(a, "shape") or a.shape == ():
            return num(Fraction(0))
        return _full(a.shape, num(Fraction(0)))

    def ones_like(self, a, dtype=None):
        a = lift(a)
        if not hasattr(a, "shape") or a.shape == ():
            return num(Fraction(1))
        return _full(a.shape, num(Fraction(1)))

    def full_like(self, a, v):
        a = lift(a)
        return _full(a.shape, num(v))

    def array(self, x, dtype=None):
        x = lift(x)
        if isinstance(x, (Arr, _np.ndarray)):
            return x.copy()
        return x

    def asarray(self, x, dtype=None):
        return lift(x)

    def atleast_1d(self, x):
        x = lift(x)
        if isinstance(x, (Arr, _np.ndarray)) and x.ndim >= 1:
            return x
        return lift([x])

    def arange(self, *a):
        if len(a) == 1:
            lo, hi = num(0), num(a[0])
        elif len(a) == 2:
            lo, hi = num(a[0]), num(a[1])
        else:
            raise Unsupported("arange step")
        d = hi - lo
        if d.c is not None:
            out = obj((max(0, int(d.c)),))
            for i in range(len(out)):
                out[i] = lo + i
            return out
        if not ctx().entailed(d.e >= 0):
            d = ite(d >= 0, d, num(0))
        return Arr((d,), lambda i: lo + i)

    def exp(self, x):
        return unop(x, funcs.exp)

    def log(self, x):
        return unop(x, funcs.log)

    def sqrt(self, x):
        return unop(x, funcs.sqrt)

    def expm1(self, x):
        return unop(x, lambda a: funcs.exp(a) - 1)

    def log1p(self, x):
        return unop(x, lambda a: funcs.log(num(a) + 1))

    def log2(self, x):
        return unop(x, lambda a: funcs.log(a) / funcs.log(num(2)))

    def log10(self, x):
        return unop(x, lambda a: funcs.log(a) / funcs.log(num(10)))

    def square(self, x):
        return unop(x, lambda a: num(a) * num(a))

    def negative(self, x):
        return unop(x, lambda a: -num(a))

    def reciprocal(self, x):
        return unop(x, lambda a: 1 / num(a))

    def add(self, x, y):
        return binop(x, y, lambda a, b: num(a) + num(b))

    def subtract(self, x, y):
        return binop(x, y, lambda a, b: num(a) - num(b))

    def multiply(self, x, y):
        return binop(x, y, lambda a, b: num(a) * num(b))

    def divide(self, x, y):
        return binop(x, y, lambda a, b: num(a) / num(b))

    true_divide = divide

    @property
    def float64(self):
        from .builtin_shims import s_float
        return s_float

    def power(self, x, y):
        return binop(x, y, lambda a, b: num(a) ** b)

    def abs(self, x):
        return unop(x, lambda a: builtins.abs(num(a)))

    absolute = fabs = abs

    def ceil(self, x):
        from .core import Num, num
        if isinstance(x, Num):
            if x.isint:
                return x
            if x.c is not None:
                import math
                return num(math.ceil(x.c))
            e = x.e
            if e.decl().kind() == z3.Z3_OP_DIV and all(q.decl().kind() == z3.Z3_OP_TO_REAL for q in e.children()):
                a, b = [Num(q.children()[0], True) for q in e.children()]
                if ctx().entailed(b.e > 0):
                    return (a + b - 1) // b
            return -Num(z3.ToInt(-e), True)
        raise Unsupported("ceil of an array")

    def maximum(self, a, b):
        return binop(a, b, smax)

    def minimum(self, a, b):
        return binop(a, b, smin)

    def clip(self, x, a_min=None, a_max=None, **kw):
        lo = kw.get("min", a_min)
        hi = kw.get("max", a_max)
        if lo is not None:
            x = binop(x, lo, smax)
        if hi is not None:
            x = binop(x, hi, smin)
        return x

    def where(self, c, a, b):
        c, a, b = lift(c) if not isinstance(c, bool) else c, lift(a), lift(b)
        shp = common_shape(c, Arr(common_shape(a, b), None))
        if not shp:
            return ite(c, a, b)
        if builtins.all(isinstance(d, int) for d in shp):
            def f(x, y, z):
                return ite(x if isinstance(x, (bool, Bool)) else num(x) != 0, y, z)
            return ndop(f, *[q for q in (c, a, b)])
        gc, ga, gb = bcast(c, shp), bcast(a, shp), bcast(b, shp)
        return Arr(shp, lambda *i: ite(gc(*i), ga(*i), gb(*i)))

    def isnan(self, x):
        return unop(x, lambda a: False)

    def isclose(self, a, b, **k):
        raise Unsupported("isclose")

    def sum(self, x, axis=None):
        x = lift(x)
        if isinstance(x, (Num, Bool)):
            return num(x)
        if isinstance(x, _np.ndarray):
            if axis is None:
                r = num(Fraction(0))
                for v in x.flat:
                    r = r + v
                return r
            return _np.add.reduce(x, axis=axis) if x.size else obj(x.sum(axis=axis).shape, num(0))
        g = x.snap()
        if x.ndim == 1:
            return Sum(0, x.shape[0], g)
        if axis is None:
            raise Unsupported("full sum of a matrix")
        ax = int(num(axis))
        if ax < 0:
            ax += x.ndim
        rest = [d for k, d in enumerate(x.shape) if k != ax]

        def get(*i):
            i = list(i)
            return Sum(0, x.shape[ax], lambda j: g(*(i[:ax] + [j] + i[ax:])))
        if builtins.all(isinstance(d, int) for d in rest):
            out = obj(tuple(rest))
            for i in _np.ndindex(*rest):
                out[i] = get(*[num(q) for q in i])
            return out
        return Arr(rest, get)

    def mean(self, x, axis=None):
        x = lift(x)
        if isinstance(x, Num):
            return x
        if axis is None:
            n = num(1)
            for d in x.shape:
                n = n * d
            return self.sum(x) / n
        return self.sum(x, axis=axis) / x.shape[int(num(axis))]

    def average(self, x, axis=None, weights=None):
        if weights is None:
            return self.mean(x, axis=axis)
        w = lift(weights)
        return self.sum(binop(x, w, lambda a, b: a * b)) / self.sum(w)

    def dot(self, a, b):
        a, b = lift(a), lift(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.sum(binop(a, b, lambda x, y: x * y))
        raise Unsupported("dot")

    inner = dot

    def cumsum(self, x):
        x = lift(x)
        if isinstance(x, _np.ndarray):
            return _np.cumsum(x)
        g = x.snap()
        return Arr(x.shape, lambda i: Sum(0, num(i) + 1, g))

    def einsum(self, spec, *a):
        if spec.replace(" ", "") in ("i,i->", "i,i", "j,j->", "k,k->"):
            return self.dot(a[0], a[1])
        raise Unsupported("einsum " + spec)

    def flip(self, x, axis=None):
        x = lift(x)
        if isinstance(x, _np.ndarray):
            return _np.flip(x)
        if x.ndim == 1:
            return x[::-1]
        raise Unsupported("flip")

    def repeat(self, x, n):
        x = lift(x)
        n = num(n)
        if isinstance(x, _np.ndarray) and n.c is not None:
            return _np.repeat(x, int(n.c))
        g = x.snap() if isinstance(x, Arr) else bcast(x, [x.shape[0]])
        if not ctx().entailed(n.e > 0):
            raise Unsupported("repeat count")
        return Arr((num(x.shape[0]) * n,), lambda i: g(num(i) // n))

    def concatenate(self, parts, axis=0):
        parts = [lift(p) for p in parts]
        if builtins.all(isinstance(p, _np.ndarray) for p in parts):
            return _np.concatenate(parts)
        tot = num(0)
        for p in parts:
            tot = tot + p.shape[0]
        gs = [bcast(p, [p.shape[0]]) for p in parts]
        ls = [num(p.shape[0]) for p in parts]

        def get(i):
            off = num(0)
            out = None
            spans = []
            for g, n in zip(gs, ls):
                spans.append((off, n, g))
                off = off + n
            r = None
            for off, n, g in reversed(spans):
                v = g(num(i) - off)
                r = v if r is None else ite(num(i) < off + n, v, r)
            return r
        return Arr((tot,), get)

    def append(self, a, b):
        b = lift(b)
        if not hasattr(b, "shape") or b.shape == ():
            b = lift([b])
        return self.concatenate([a, b])

    def vectorize(self, f, **k):
        def g(*a, **kw):
            la = [lift(x) for x in a]
            lk = {n: lift(v) for n, v in kw.items()}
            allv = la + list(lk.values())
            arrs = [v for v in allv if isinstance(v, (Arr, _np.ndarray)) and v.ndim]
            if not arrs:
                return f(*a, **kw)
            shp = []
            for v in arrs:
                shp = common_shape(v, Arr(shp, None)) if shp else list(v.shape)
            gl = [bcast(v, shp) for v in la]
            gk = {n: bcast(v, shp) for n, v in lk.items()}

            def get(*i):
                return merged(lambda: num(f(*[h(*i) for h in gl], **{n: h(*i) for n, h in gk.items()})))
            if builtins.all(isinstance(d, int) for d in shp):
                out = obj(tuple(shp))
                for i in _np.ndindex(*shp):
                    out[i] = get(*[num(q) for q in i])
                return out
            return Arr(shp, get)
        return g

    def min(self, x, axis=None):
        return reduce1(x, smin)

    def max(self, x, axis=None):
        return reduce1(x, smax)

    amin, amax = min, max

    def any(self, x, axis=None):
        return sany(x)

    def all(self, x, axis=None):
        return sall(x)

    def isscalar(self, x):
        return is_num(x)

    def size(self, x):
        return lift(x).size

    def shape(self, x):
        return lift(x).shape

    def unique(self, x):
        from .frames import unique
        if isinstance(x, Arr):
            raise Unsupported("unique of a symbolic array")
        return lift(unique(list(x)))

    def sign(self, x):
        return unop(x, lambda a: ite(num(a) > 0, num(1), ite(num(a) < 0, num(-1), num(0))))

    @property
    def random(self):
        return _Random()

    def transpose(self, x):
        return lift(x).T

    def array_equal(self, a, b):
        raise Unsupported("array_equal")

    def __getattr__(self, n):
        raise Unsupported(f"numpy.{n}")


class _Random:
    """normal(loc, scale, size) = loc + scale z with z a different standard normal draw for every call and position"""

    def normal(self, loc=0, scale=1, size=None):
        c = ctx()
        if size is None or not is_num(size) or not is_num(loc) or not is_num(scale):
            raise Unsupported("random.normal")
        call = c.draws = getattr(c, "draws", -1) + 1
        f = z3.Function("normal", z3.IntSort(), z3.IntSort(), z3.RealSort())
        loc, scale, size = num(loc), num(scale), num(size)
        if size.c is not None:
            out = obj((int(size.c),))
            for i in range(int(size.c)):
                out[i] = loc + scale * Num(f(z3.IntVal(call), z3.IntVal(i)), False)
            return out
        return Arr((size,), lambda i: loc + scale * Num(f(z3.IntVal(call), num(i).e), False))

    def __getattr__(self, n):
        raise Unsupported(f"numpy.random.{n}")


class _Nan:
    def _f(self, *a):
        return self
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _f

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True
    __hash__ = object.__hash__


NAN = _Nan()


def merged(thunk):
    """evaluate thunk, turning branches inside into if-then-else values"""
    from .explore import run_merged
    return run_merged(thunk)


def reduce1(x, f):
    x = lift(x)
    if isinstance(x, Num):
        return x
    if isinstance(x, _np.ndarray):
        vals = list(x.flat)
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r
    raise Unsupported("min/max of symbolic-length array")


def sany(x):
    if isinstance(x, SymSeq) and x.n.c is None:
        return _quant("any", x.n, x.get)
    x = lift(x) if not isinstance(x, (list, tuple)) else x
    if isinstance(x, Arr):
        return _quant("any", x.shape[0], x.snap())
    vals = list(x.flat) if isinstance(x, _np.ndarray) else list(x)
    es = [boolterm(v) for v in vals]
    e = z3.simplify(z3.Or(*es)) if es else z3.BoolVal(False)
    return True if z3.is_true(e) else False if z3.is_false(e) else Bool(e)


def sall(x):
    if isinstance(x, SymSeq) and x.n.c is None:
        return _quant("all", x.n, x.get)
    x = lift(x) if not isinstance(x, (list, tuple)) else x
    if isinstance(x, Arr):
        return _quant("all", x.shape[0], x.snap())
    vals = list(x.flat) if isinstance(x, _np.ndarray) else list(x)
    es = [boolterm(v) for v in vals]
    e = z3.simplify(z3.And(*es)) if es else z3.BoolVal(True)
    return True if z3.is_true(e) else False if z3.is_false(e) else Bool(e)


def _quant(kind, n, get):
    from .seq import index_var, scope
    c = ctx()
    c.store.nquant = getattr(c.store, "nquant", 0) + 1
    j = index_var(f"Q!{c.store.nquant}")
    rng = z3.And(j >= 0, j < num(n).e)
    with scope(rng):
        b = boolterm(get(Num(j)))
        if kind == "any" and not c.feasible(b):
            return False
        if kind == "all" and c.entailed(b):
            return True
    if kind == "any":
        return Bool(z3.Exists([j], z3.And(rng, b)))
    return Bool(z3.ForAll([j], z3.Implies(rng, b)))


NP = _NP()
