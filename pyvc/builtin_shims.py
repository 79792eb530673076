"""builtins and helper functions seen by the transformed code"""
import builtins as _b
from fractions import Fraction

import numpy as _np
import z3

from . import arrays, funcs
from .arrays import Arr, ite, lift
from .core import Bool, Num, PathEnd, Str, Sym, Unsupported, ctx, frac, is_num, num
from .seq import SFmt, SymRange, SymSeq, fmt
from .shim_np import NP, _ND, sall, sany, smax, smin


def has_sym(xs):
    return any(isinstance(x, Sym) for x in xs)


class _RangeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (range, SymRange))


class s_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        ns = [num(x) if not isinstance(x, float) else x for x in a]
        for n in ns:
            if isinstance(n, Num) and not n.isint:
                if n.c is not None:
                    raise TypeError("'float' object cannot be interpreted as an integer")
                raise Unsupported("range over a real number")
        if all(n.c is not None for n in ns):
            return range(*[int(n.c) for n in ns])
        if len(ns) == 1:
            return SymRange(0, ns[0])
        if len(ns) == 2:
            return SymRange(ns[0], ns[1])
        lo, hi, st = ns
        if not ctx().decide((st > 0).e if isinstance(st > 0, Bool) else z3.BoolVal(st > 0)):
            raise Unsupported("range with a negative step")
        n = (hi - lo + st - 1) // st
        if not ctx().entailed(n.e >= 0):
            n = ite(n >= 0, n, num(0))
        return SymSeq(n, lambda k: lo + num(k) * st, "range")


def s_len(x):
    if hasattr(x, "pv_len"):
        n = x.pv_len()
        return int(n.c) if n.c is not None else n
    if isinstance(x, Num):
        raise TypeError("object of type 'float' has no len()")
    return _b.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Num):
            return o.isint
        return isinstance(o, _b.int)

    def __eq__(cls, o):
        return o is cls or o is _b.int
    __hash__ = type.__hash__


class s_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Bool):
            return num(x)
        if isinstance(x, Num):
            if x.isint:
                return x
            if x.c is not None:
                return num(int(x.c))
            if ctx().decide((x >= 0).e):
                return Num(z3.simplify(z3.ToInt(x.e)), True)
            return -Num(z3.simplify(z3.ToInt(-x.e)), True)
        if isinstance(x, Str):
            raise Unsupported("int of symbolic string")
        return _b.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        if isinstance(o, Num):
            return not o.isint
        return isinstance(o, _b.float)

    def __eq__(cls, o):
        return o is cls or o is _b.float
    __hash__ = type.__hash__


class s_float(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, Num):
            return Num(x.real, False, x.c)
        if isinstance(x, str):
            f = _b.float(x)
            if f != f or f in (_b.float("inf"), -_b.float("inf")):
                return f
            return num(Fraction(x.strip()))
        if isinstance(x, _b.int):
            return num(Fraction(x))
        return _b.float(x)


def s_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for q in ts:
        if q is _ND:
            if isinstance(o, (Arr, _np.ndarray)):
                return True
            continue
        if q is _b.str and isinstance(o, Str):
            return True
        if q is _b.list and isinstance(o, SymSeq) and o.kind == "list":
            return True
        if q is _b.bool and isinstance(o, Bool):
            return True
        if hasattr(q, "pv_instance"):
            if q.pv_instance(o):
                return True
            continue
        if q in (NP.integer, NP.floating):
            continue
        if isinstance(o, Num):
            nm = getattr(q, "__name__", "")
            if nm in ("Number", "Complex", "Real") or nm in ("Rational", "Integral") and o.isint:
                return True
        if _b.isinstance(o, q):
            return True
    return False


def s_sum(x, start=0):
    if isinstance(x, (Arr, SymSeq)) and not isinstance(x, range):
        if isinstance(x, SymSeq) and x.n.c is None or isinstance(x, Arr):
            return NP.sum(x) + start
    r = start
    for v in x:
        r = r + v
    return r


def s_min(*a, **k):
    return _minmax(a, k, smin, _b.min)


def s_max(*a, **k):
    return _minmax(a, k, smax, _b.max)


def _minmax(a, k, f, native):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or not xs or not all(is_num(x) for x in xs):
        return native(*a, **k)
    if not has_sym(xs):
        return native(xs)
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def s_abs(x):
    return abs(x)


def s_any(x):
    if isinstance(x, (Arr, SymSeq)):
        return sany(x)
    return sany(list(x))


def s_all(x):
    if isinstance(x, (Arr, SymSeq)):
        return sall(x)
    return sall(list(x))


def symbolic_iter(x):
    if isinstance(x, SymSeq):
        return x.n.c is None
    if isinstance(x, Arr):
        return not isinstance(x.shape[0], int)
    return False


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, Arr):
        if x.ndim == 1:
            return SymSeq(num(x.shape[0]), x.snap())
        return SymSeq(num(x.shape[0]), lambda i: x[i])
    return None


def s_enumerate(x, start=0):
    if symbolic_iter(x):
        s = as_seq(x)
        return SymSeq(s.n, lambda i: (num(i) + start, s.get(i)), "iter")
    if hasattr(x, "pv_items"):
        x = x.pv_items()
    return _b.enumerate(x, start)


def s_zip(*xs):
    if any(symbolic_iter(x) for x in xs):
        ss = [as_seq(x) for x in xs]
        if any(s is None for s in ss):
            raise Unsupported("zip of symbolic and concrete")
        n = ss[0].n
        for s in ss[1:]:
            if not ctx().entailed(s.n.e == n.e):
                n = smin(n, s.n)
        return SymSeq(n, lambda i: tuple(s.get(i) for s in ss), "iter")
    return _b.zip(*xs)


def s_list(x=()):
    if isinstance(x, SymSeq) and x.n.c is None:
        return SymSeq(x.n, x.get, "list")
    if isinstance(x, Arr):
        return as_seq(x)
    return _b.list(x)


def s_hasattr(o, n):
    if isinstance(o, Num) and n == "__len__":
        return False
    return _b.hasattr(o, n)


def s_round(x, n=None):
    if isinstance(x, Num):
        raise Unsupported("round")
    return _b.round(x, n) if n is not None else _b.round(x)


def s_str(x=""):
    if isinstance(x, Str):
        return x
    if isinstance(x, Num) and x.c is not None:
        return str(int(x.c)) if x.isint else repr(_b.float(x.c))
    return _b.str(x)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_b.str, Str))


class s_strt(metaclass=_StrMeta):
    def __new__(cls, x="", *a):
        return s_str(x)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _b.list) or (isinstance(o, SymSeq) and o.kind == "list")


class s_listt(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return s_list(x)


def make(world):
    d = dict(_b.__dict__)
    d.update(range=s_range, len=s_len, int=s_int, float=s_float, isinstance=s_isinstance, sum=s_sum, min=s_min, max=s_max,
             any=s_any, all=s_all, enumerate=s_enumerate, zip=s_zip, list=s_listt, hasattr=s_hasattr, round=s_round,
             str=s_strt, __import__=world.imp, print=lambda *a, **k: None)
    d["open"] = _no_open
    return d


def _no_open(*a, **k):
    raise Unsupported("file access")


_HASHED = (dict, set, frozenset, type({}.keys()))


class _PV:
    PathEnd = PathEnd

    @staticmethod
    def lit(s):
        f = Fraction(s)
        return Num.const(f)

    @staticmethod
    def div(a, b):
        if isinstance(a, _b.int) and isinstance(b, _b.int) and not isinstance(a, bool):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return Num.const(Fraction(a, b))
        return a / b

    @staticmethod
    def ifexp(t, a, b):
        if isinstance(t, Num) and t.c is None:
            t = Bool(t.e != 0)
        if not isinstance(t, Bool):
            return a() if t else b()
        e = z3.simplify(t.e)
        c = ctx()
        if z3.is_true(e) or z3.is_false(e) or c.known.get(e.get_id()) is not None or c.binder:
            return a() if t else b()
        from .explore import run_local
        res = run_local(lambda: a() if t else b())
        if len(res) == 1:
            return res[0][1]
        if all(is_num(v) for _, v in res) or all(isinstance(v, (_b.bool, Bool)) for _, v in res):
            r = res[-1][1]
            for cond, v in reversed(res[:-1]):
                r = ite(Bool(cond), v, r)
            return r
        return a() if t else b()

    # ---- native dictionaries and sets looked up with a symbolic key: compared with every key there is
    @staticmethod
    def symkey(k):
        return (type(k) is Num and k.c is None) or type(k) is Str or (type(k) is tuple and any(_PV.symkey(x) for x in k))

    @staticmethod
    def key(d, k):
        """the key of d equal to k, if there is one (a case split), else k"""
        if isinstance(d, _HASHED) and (_PV.symkey(k) or (d and not isinstance(k, _b.str) and any(_PV.symkey(x) for x in d))):
            for x in _b.list(d):
                if x is k or x == k:
                    return x
        if _b.type(d).__module__.startswith("pandas"):
            return _PV.label(d, k)
        return k

    @staticmethod
    def label(d, k):
        """label(s) of a native pandas object for number-valued subscripts"""
        if isinstance(k, _b.tuple):
            o = getattr(d, "obj", d)
            ax = [getattr(o, "index", ()), getattr(o, "columns", ())]
            return _b.tuple(_PV._label(a, x) for a, x in zip(ax, k)) if _b.len(k) == 2 else k
        o = getattr(d, "obj", d)
        return _PV._label(getattr(o, "index", ()), k)

    @staticmethod
    def _label(index, k):
        if not isinstance(k, Num):
            return k
        v = k.c
        if v is not None:
            return _b.int(v) if v.denominator == 1 else _b.float(v)
        for x in index:
            if x == k:
                return x
        raise KeyError(k)

    @staticmethod
    def item(d, k):
        if isinstance(d, dict):
            k = _PV.key(d, k)
            if _PV.symkey(k) and k not in d:
                if hasattr(d, "__missing__"):
                    return d[k]
                raise KeyError(k)
        elif _b.type(d).__module__.startswith("pandas"):
            k = _PV.label(d, k)
        return d[k]

    @staticmethod
    def isin(k, d):
        if isinstance(d, _HASHED + (_b.tuple, _b.list)) and type(k) is Str:
            lits = [Str.lift(x) for x in d]
            if all(x is not None for x in lits):
                return Bool(z3.Or(*[k.e == x for x in lits])) if lits else False
        return _PV.key(d, k) in d

    @staticmethod
    def notin(k, d):
        r = _PV.isin(k, d)
        return ~r if isinstance(r, Bool) else not r

    @staticmethod
    def keyed(o, name, args, kw):
        """o.get / o.pop / o.setdefault of a dictionary"""
        if isinstance(o, dict) and args:
            args = (_PV.key(o, args[0]),) + _b.tuple(args[1:])
        return getattr(o, name)(*args, **kw)

    @staticmethod
    def listmul(a, b):
        return b._replist(a) if isinstance(b, Num) else a * b

    @staticmethod
    def fstr(*parts):
        """f-string: text of the pieces (spec, conversion already applied by the caller when native)"""
        if not any(isinstance(p, Sym) for p in parts):
            return "".join(_b.str(p) for p in parts)
        out = []
        for p in parts:
            if isinstance(p, (Num, Str, SFmt, _b.str)):
                out.append(p)
            else:
                out.append(_b.str(p))
        return fmt(*out)

    @staticmethod
    def joined(*parts):
        """[*a, *b]"""
        if not any(symbolic_iter(p) for p in parts):
            return [x for p in parts for x in p]
        from .seq import concat
        r = as_seq(parts[0]) if symbolic_iter(parts[0]) else _b.list(parts[0])
        for p in parts[1:]:
            r = concat(r, as_seq(p) if symbolic_iter(p) else _b.list(p))
        r.parts = [p for q in parts for p in (getattr(q, "parts", None) or [q])]
        return r

    @staticmethod
    def enter(q):
        c = ctx_or_none()
        if c is not None:
            f = c.store.functions
            f[q] = f.get(q, 0) + 1

    @staticmethod
    def comp(kind, f, it, cond):
        if symbolic_iter(it):
            s = as_seq(it)
            if cond is not None:
                from .seq import index_var, scope
                k = index_var(f"filter!{ctx().sumdepth}")
                with scope(z3.And(k >= 0, k < s.n.e)):
                    keep = cond(s.get(Num(k, True)))
                    if keep is not True and not (isinstance(keep, Bool) and ctx().entailed(keep.e)):
                        raise Unsupported("filtered comprehension over a symbolic sequence")
            if kind in ("list", "gen"):
                return SymSeq(s.n, lambda i: f(s.get(num(i))), "list")
            raise Unsupported("dict comprehension over a symbolic sequence")
        vals = (f(x) for x in it if (cond is None or cond(x)))
        if kind == "list":
            return _b.list(vals)
        if kind == "dict":
            return dict(vals)
        if kind == "set":
            return set(vals)
        return vals

    @staticmethod
    def iter(x):
        return x

    @staticmethod
    def concrete(x):
        return not symbolic_iter(x)

    @staticmethod
    def need_concrete(x):
        if symbolic_iter(x):
            raise Unsupported("loop with early return over a symbolic range")
        return x

    @staticmethod
    def loop(key, it, names, loc):
        from .loops import Loop
        return Loop(key, as_seq(it), names, loc)

    @staticmethod
    def wloop(key, test, names):
        from .loops import WLoop
        return WLoop(key, test, names)


def ctx_or_none():
    from .core import Ctx
    return Ctx.cur


PV = _PV()
