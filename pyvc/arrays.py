"""Arrays.

Concrete shapes: numpy object arrays of Num (numpy's own indexing, views and
broadcasting).  Symbolic shapes: Arr, a shape plus an element function; basic
slices are write-through views, arithmetic is lazy over immutable snapshots.
"""
import builtins

import numpy as _np
import z3

from .core import Bool, Num, Str, Sym, Unsupported, ctx, is_num, num, Ctx


def isconc(d):
    return isinstance(d, int) or (isinstance(d, Num) and d.c is not None)


def as_dim(d):
    if isinstance(d, Num):
        if d.c is not None:
            return int(d.c)
        return d
    if isinstance(d, (int, _np.integer)):
        return int(d)
    if hasattr(d, "pv_num"):
        return as_dim(d.pv_num())
    raise Unsupported(f"array dimension {type(d)}")


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ea, eb = num(a).e, num(b).e
    if ea.eq(eb):
        return True
    return ctx().entailed(ea == eb)


def obj(shape, fill=None):
    a = _np.empty(shape, dtype=object)
    if fill is not None:
        a.fill(fill)
    return a


def lift(x):
    """anything -> Num | Bool | Str | ndarray(object) | Arr"""
    if isinstance(x, (Num, Bool, Str, Arr)):
        return x
    if hasattr(x, "pv_array"):
        return x.pv_array()
    if type(x).__module__.startswith("pandas") and hasattr(x, "to_numpy"):
        x = x.to_numpy()
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return x
        out = obj(x.shape)
        for i in _np.ndindex(*x.shape):
            out[i] = num(x[i].item())
        return out
    if isinstance(x, (list, tuple)):
        parts = [lift(p) if p is not None else None for p in x]
        if any(isinstance(p, Arr) for p in parts):
            n = parts[0].shape[0]
            ps = list(parts)
            for p in ps:
                if not isinstance(p, (Arr,)) or p.ndim != 1 or not same_dim(p.shape[0], n):
                    raise Unsupported("ragged stack of arrays")
            snaps = [p.snap() for p in ps]

            def get(i, j):
                if isinstance(i, int) or i.c is not None:
                    return snaps[int(i)](j)
                r = snaps[-1](j)
                for q in range(len(snaps) - 2, -1, -1):
                    r = ite(i == q, snaps[q](j), r)
                return r
            return Arr((len(ps), n), get)
        if not parts:
            return obj((0,))
        shp = parts[0].shape if isinstance(parts[0], _np.ndarray) else ()
        out = obj((len(parts),) + shp)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    return num(x)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    e = z3.simplify(c.e)
    if z3.is_true(e):
        return a
    if z3.is_false(e):
        return b
    k = ctx().known.get(e.get_id())
    if k is not None:
        return a if k else b
    if isinstance(a, Bool) or isinstance(b, Bool):
        from .core import boolterm
        return Bool(z3.If(e, boolterm(a), boolterm(b)))
    if not (is_num(a) and is_num(b)):
        if a is b:
            return a
        raise Unsupported("ite over non-numbers")
    a, b = num(a), num(b)
    if a.isint and b.isint:
        if a.e.eq(b.e):
            return a
        return Num(z3.If(e, a.e, b.e), True)
    if a.real.eq(b.real):
        return a
    return Num(z3.If(e, a.real, b.real), False)


class Arr(Sym):
    __slots__ = ("shape", "_get", "base", "imap", "writes", "__weakref__", "tag")

    def __init__(self, shape, get, base=None, imap=None, tag=None):
        self.shape = tuple(as_dim(s) for s in shape)
        self._get = get
        self.base = base      # write-through view of base
        self.imap = imap      # view index tuple -> base index tuple
        self.tag = tag

    # ---- basics
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = num(1)
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return _np.dtype(object)

    def snap(self):
        """immutable element function of the current contents"""
        if self.base is not None:
            g, m = self.base.snap(), self.imap
            return lambda *i: g(*m(*i))
        return self._get

    def at(self, *i):
        return self.snap()(*[num(x) for x in i])

    def pv_len(self):
        return num(self.shape[0])

    def __len__(self):
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Unsupported("len() of symbolic array (native)")

    def __iter__(self):
        if isinstance(self.shape[0], int):
            return iter([self[i] for i in range(self.shape[0])])
        raise Unsupported("iteration over symbolic array (native)")

    def copy(self):
        return Arr(self.shape, self.snap(), tag=self.tag)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t):
        return self.copy()

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")

    def to_numpy(self, *a, **k):
        return self.copy()

    @property
    def values(self):
        return self

    def tolist(self):
        from .seq import SymSeq
        g = self.snap()
        return SymSeq(num(self.shape[0]), g)

    @property
    def T(self):
        if self.ndim == 1:
            return self
        g = self.snap()
        return Arr(self.shape[::-1], lambda *i: g(*i[::-1]))

    def transpose(self, *a):
        if a:
            raise Unsupported("transpose with axes")
        return self.T

    # ---- indexing
    def _axis(self, key, n):
        """-> ('i', Num) or ('s', start, len, step)"""
        if isinstance(key, slice):
            return slice_bounds(key, n)
        if isinstance(key, (int, _np.integer)) or isinstance(key, Num):
            return ("i", norm_index(key, n))
        raise Unsupported(f"array index {type(key)}")

    def _split(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            raise Unsupported("ellipsis index")
        key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError("too many indices")
        return [self._axis(k, n) for k, n in zip(key, self.shape)]

    def __getitem__(self, key):
        if isinstance(key, Arr) or isinstance(key, _np.ndarray):
            return self._fancy(key)
        ax = self._split(key)
        if all(a[0] == "i" for a in ax):
            return self.snap()(*[a[1] for a in ax])
        shape = [a[2] for a in ax if a[0] == "s"]

        def imap(*i):
            it = iter(i)
            return tuple(a[1] if a[0] == "i" else num(a[1]) + num(next(it)) * a[3] for a in ax)
        g = self.snap()
        return Arr(shape, None, base=self, imap=imap)

    def _fancy(self, key):
        raise Unsupported("fancy indexing")

    def __setitem__(self, key, val):
        ax = self._split(key)
        if self.base is not None:
            sl = [a for a in ax if a[0] == "s"]
            if not sl:
                self.base[self.imap(*[a[1] for a in ax])] = val
                return
            # full-slice write through a one-dimensional affine view
            if self.ndim == 1:
                a = sl[0]
                i0 = self.imap(num(a[1]))
                i1 = self.imap(num(a[1]) + a[3])
                ch = [k for k in range(len(i0)) if not num(i0[k]).e.eq(num(i1[k]).e)]
                if len(ch) == 1 and a[3] == 1:
                    k = ch[0]
                    stride = num(i1[k]) - num(i0[k])
                    if ctx().entailed(stride.e == 1):
                        key2 = list(i0)
                        key2[k] = slice(i0[k], i0[k] + a[2])
                        self.base[tuple(key2)] = val
                        return
            raise Unsupported("slice write through a view")
        g = self._get
        if all(a[0] == "i" for a in ax):
            idx = [a[1] for a in ax]
            if not is_num(val) and not isinstance(val, Bool):
                raise Unsupported("array element of unknown type")
            v = num(val)
            notes = ctx().write_log
            if notes is not None:
                notes.append((self, tuple(idx), v))

            def get(*i, g=g):
                c = True
                for p, q in zip(i, idx):
                    e = num(p) == q
                    if e is False:
                        return g(*i)
                    if e is True:
                        continue
                    c = e if c is True else (c & e)
                return ite(c, v, g(*i)) if c is not True else v
            self._get = get
            return
        val = lift(val)
        lens = [a[2] for a in ax if a[0] == "s"]
        vg = bcast(val, lens)
        if ctx().write_log is not None:
            ctx().write_log.append((self, None, None))

        def get(*i, g=g):
            c = True
            sub = []
            for p, a in zip(i, ax):
                p = num(p)
                if a[0] == "i":
                    e = p == a[1]
                    c = e if c is True else (c & e if not isinstance(e, bool) else (c if e else False))
                else:
                    if a[3] != 1:
                        raise Unsupported("strided slice write")
                    off = p - a[1]
                    sub.append(off)
                    lo, hi = off >= 0, off < a[2]
                    for e in (lo, hi):
                        if e is True:
                            continue
                        if e is False:
                            return g(*i)
                        c = e if c is True else c & e
                if c is False:
                    return g(*i)
            if c is True:
                return vg(*sub)
            ce = z3.simplify(c.e)
            if z3.is_true(ce):
                return vg(*sub)
            if z3.is_false(ce):
                return g(*i)
            return ite(c, vg(*sub), g(*i))
        self._get = get

    # ---- arithmetic
    def _bin(self, o, f):
        return binop(self, o, f)

    def __add__(s, o): return binop(s, o, lambda a, b: a + b) if not hasattr(o, 'pv_series') else NotImplemented
    def __radd__(s, o): return binop(o, s, lambda a, b: a + b)
    def __sub__(s, o): return binop(s, o, lambda a, b: a - b) if not hasattr(o, 'pv_series') else NotImplemented
    def __rsub__(s, o): return binop(o, s, lambda a, b: a - b)
    def __mul__(s, o): return binop(s, o, lambda a, b: a * b) if not hasattr(o, 'pv_series') else NotImplemented
    def __rmul__(s, o): return binop(o, s, lambda a, b: a * b)
    def __truediv__(s, o): return binop(s, o, lambda a, b: a / b)
    def __rtruediv__(s, o): return binop(o, s, lambda a, b: a / b)
    def __pow__(s, o): return binop(s, o, lambda a, b: a ** b)
    def __rpow__(s, o): return binop(o, s, lambda a, b: a ** b)
    def __floordiv__(s, o): return binop(s, o, lambda a, b: a // b)
    def __mod__(s, o): return binop(s, o, lambda a, b: a % b)
    def __neg__(s): return unop(s, lambda a: -a)
    def __abs__(s): return unop(s, builtins.abs)
    def __lt__(s, o): return binop(s, o, lambda a, b: a < b)
    def __le__(s, o): return binop(s, o, lambda a, b: a <= b)
    def __gt__(s, o): return binop(s, o, lambda a, b: a > b)
    def __ge__(s, o): return binop(s, o, lambda a, b: a >= b)
    def __eq__(s, o): return binop(s, o, lambda a, b: a == b)
    def __ne__(s, o): return binop(s, o, lambda a, b: a != b)
    def __invert__(s): return unop(s, lambda a: (not a) if isinstance(a, bool) else ~a)
    __hash__ = object.__hash__

    def __iadd__(self, o):
        r = self + o
        self[(slice(None),) * self.ndim] = r
        return self

    def __isub__(self, o):
        r = self - o
        self[(slice(None),) * self.ndim] = r
        return self

    def __imul__(self, o):
        r = self * o
        self[(slice(None),) * self.ndim] = r
        return self

    def __itruediv__(self, o):
        r = self / o
        self[(slice(None),) * self.ndim] = r
        return self

    def __bool__(self):
        raise ValueError("truth value of an array is ambiguous")

    def __repr__(self):
        return f"<Arr {self.shape}>"

    def sum(self, axis=None):
        from . import shim_np
        return shim_np.NP.sum(self, axis=axis)

    def mean(self, axis=None):
        from . import shim_np
        return shim_np.NP.mean(self, axis=axis)


def slice_bounds(key, n):
    nn = num(n)
    st = key.step
    if st is not None and not (is_num(st) and num(st).c is not None):
        raise Unsupported("symbolic slice step")
    st = 1 if st is None else int(num(st))
    c = ctx()

    def clamp(v, default):
        if v is None:
            return default
        v = num(v)
        if v.c is not None and v.c < 0 and not (nn.c is not None):
            v = nn + v
            if c.entailed(v.e >= 0):
                return v
            return ite(v >= 0, v, num(0))
        if v.c is not None and nn.c is not None:
            x = int(v.c)
            if x < 0:
                x = max(0, x + int(nn.c))
            return num(min(x, int(nn.c)))
        # symbolic, python semantics
        if c.entailed(v.e >= 0):
            pass
        elif c.entailed(v.e < 0):
            v = nn + v
            if not c.entailed(v.e >= 0):
                v = ite(v >= 0, v, num(0))
            return v
        else:
            v = v if bool(v >= 0) else nn + v
            if not c.entailed(v.e >= 0):
                v = ite(v >= 0, v, num(0))
        if c.entailed(v.e <= nn.e):
            return v
        return ite(v <= nn, v, nn)
    if st > 0:
        a, b = clamp(key.start, num(0)), clamp(key.stop, nn)
        d = b - a
        if d.c is not None:
            d = num(max(0, int(d.c)))
        elif not c.entailed(d.e >= 0):
            d = ite(d >= 0, d, num(0))
        if st > 1:
            d = (d + (st - 1)) // st
        return ("s", a, d, st)
    if st == -1:
        # a[start:stop:-1]
        hi = nn - 1 if key.start is None else num(key.start)
        if hi.c is not None and hi.c < 0:
            hi = nn + hi
        if not c.entailed(z3.And(hi.e >= 0, hi.e < nn.e)) and key.start is not None:
            raise Unsupported("reverse slice bounds")
        if key.stop is None:
            d = hi + 1
        else:
            lo = num(key.stop)
            if lo.c is not None and lo.c < 0:
                lo = nn + lo
            if not c.entailed(lo.e >= 0):
                raise Unsupported("reverse slice bounds")
            d = hi - lo
            if not c.entailed(d.e >= 0):
                d = ite(d >= 0, d, num(0))
        return ("s", hi, d, -1)
    raise Unsupported("slice step")


def norm_index(key, n):
    k, nn = num(key), num(n)
    c = ctx()
    if k.c is not None and nn.c is not None:
        i = int(k.c)
        if i < 0:
            i += int(nn.c)
        if not 0 <= i < int(nn.c):
            raise IndexError("index out of bounds")
        return num(i)
    if k.c is not None and k.c < 0:
        k = nn + k
        if not c.decide((k >= 0).e):
            raise IndexError("index out of bounds")
        return k
    if not c.entailed(k.e >= 0):
        if not c.decide((k >= 0).e if isinstance(k >= 0, Bool) else z3.BoolVal(k >= 0)):
            k = nn + k
            if not c.decide((k >= 0).e):
                raise IndexError("index out of bounds")
            return k
    r = k < nn
    if r is True:
        return k
    if r is False or not c.decide(r.e):
        raise IndexError("index out of bounds")
    return k


def conc_get(a, i):
    """element of a concrete-shape array at a possibly symbolic index"""
    if all(num(x).c is not None for x in i):
        return a[tuple(int(num(x).c) for x in i)]
    if len(i) == 1:
        r = a[-1]
        for q in range(len(a) - 2, -1, -1):
            r = ite(num(i[0]) == q, a[q], r)
        return r
    x = num(i[0])
    if x.c is not None:
        return conc_get(a[int(x.c)], i[1:])
    r = conc_get(a[-1], i[1:])
    for q in range(len(a) - 2, -1, -1):
        r = ite(x == q, conc_get(a[q], i[1:]), r)
    return r


def bcast(v, lens):
    """element function of v broadcast to dims lens"""
    if isinstance(v, (Num, Bool)) or is_num(v):
        return lambda *i: v
    if isinstance(v, _np.ndarray):
        if v.ndim == 0:
            return lambda *i: v.item()
        if v.ndim > len(lens):
            raise Unsupported("broadcast")
        off = len(lens) - v.ndim
        vv = v.copy()
        for d, n in zip(v.shape, lens[off:]):
            if d != 1 and not same_dim(d, n):
                raise ValueError("could not broadcast")

        def get(*i):
            return conc_get(vv, [0 if vv.shape[k] == 1 else i[off + k] for k in range(vv.ndim)])
        return get
    g = v.snap()
    off = len(lens) - v.ndim
    if off < 0:
        raise Unsupported("broadcast")
    ones = []
    for d, n in zip(v.shape, lens[off:]):
        if isinstance(d, int) and d == 1:
            ones.append(True)
        elif same_dim(d, n):
            ones.append(False)
        else:
            # different lengths raise ValueError in numpy; decide
            if ctx().decide((num(d) == num(n)).e):
                ones.append(False)
            else:
                raise ValueError("could not broadcast shapes")
    return lambda *i: g(*[num(0) if o else x for o, x in zip(ones, i[off:])])


def common_shape(a, b):
    sa = list(a.shape) if hasattr(a, "shape") else []
    sb = list(b.shape) if hasattr(b, "shape") else []
    n = max(len(sa), len(sb))
    sa = [1] * (n - len(sa)) + sa
    sb = [1] * (n - len(sb)) + sb
    out = []
    for x, y in zip(sa, sb):
        if isinstance(x, int) and x == 1:
            out.append(y)
        else:
            out.append(x)
    return out


def binop(a, b, f):
    a, b = lift(a), lift(b)
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
            return ndop(f, a, b)
        return f(a, b)
    shp = common_shape(a, b)
    ga, gb = bcast(a, shp), bcast(b, shp)
    return Arr(shp, lambda *i: f(ga(*i), gb(*i)))


def ndop(f, *args):
    r = _np.frompyfunc(f, len(args), 1)(*[_wrap0(a) for a in args])
    return r


def _wrap0(a):
    if isinstance(a, _np.ndarray):
        return a
    z = obj(())
    z[()] = a
    return z


def unop(a, f):
    a = lift(a)
    if isinstance(a, Arr):
        g = a.snap()
        return Arr(a.shape, lambda *i: f(g(*i)))
    if isinstance(a, _np.ndarray):
        return _np.frompyfunc(f, 1, 1)(a)
    return f(a)
