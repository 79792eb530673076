"""Year-labelled tables and small row tables with symbolic contents (the pandas operations the contracts need)."""
from types import SimpleNamespace

import numpy as _np
import z3

from .arrays import Arr, ite, lift, obj
from .core import Num, Sym, Unsupported, ctx, is_num, num


class YSer(Sym):
    """series / dictionary from years to numbers; labels y0..y1 (inclusive)"""
    pv_series = True

    def __init__(self, get, y0, y1):
        self._get, self.y0, self.y1 = get, num(y0), num(y1)

    def __getitem__(self, k):
        if is_num(k):
            return self._get(num(k))
        if isinstance(k, slice):
            if k == slice(None):
                return self
            raise Unsupported("slice of a series")
        k = lift(k)
        g = self._get
        if isinstance(k, _np.ndarray):
            out = obj(k.shape)
            for i in _np.ndindex(*k.shape):
                out[i] = g(num(k[i]))
            return YArr(out)
        kg = k.snap()
        return YArr(Arr(k.shape, lambda i: g(kg(i))))

    def __setitem__(self, k, v):
        k, v, g = num(k), num(v), self._get
        if ctx().write_log is not None:
            raise Unsupported("write to a year table inside a summarised loop")

        def get(i):
            e = num(i) == k
            if e is True:
                return v
            if e is False:
                return g(i)
            return ite(e, v, g(i))
        self._get = get

    def copy(self, deep=True):
        return YSer(self._get, self.y0, self.y1)

    @property
    def iloc(self):
        g, y0 = self._get, self.y0
        n = self.y1 - self.y0 + 1

        class I:
            def __getitem__(s, k):
                k = num(k)
                if k.c is not None and k.c < 0:
                    k = n + k
                return g(y0 + k)
        return I()

    def pv_array(self):
        g, y0 = self._get, self.y0
        n = self.y1 - self.y0 + 1
        if n.c is not None:
            out = obj((int(n.c),))
            for i in range(int(n.c)):
                out[i] = g(y0 + i)
            return out
        return Arr((n,), lambda i: g(y0 + num(i)))

    @property
    def values(self):
        return self.pv_array()

    def to_numpy(self, *a, **k):
        return self.pv_array()

    def items(self):
        from .seq import SymSeq
        g, y0 = self._get, self.y0
        n = self.y1 - self.y0 + 1
        if n.c is not None:
            return [(y0 + i, g(y0 + i)) for i in range(int(n.c))]
        return SymSeq(n, lambda i: (y0 + num(i), g(y0 + num(i))))

    def _bin(self, o, f):
        g = self._get
        if isinstance(o, YSer):
            h = o._get
            for a, b in ((self.y0, o.y0), (self.y1, o.y1)):
                if not (a.c == b.c if a.c is not None else a.e.eq(b.e)) and not ctx().entailed(a.e == b.e):
                    raise Unsupported("arithmetic of series with other labels")
            return YSer(lambda i: f(g(i), h(i)), self.y0, self.y1)
        if is_num(o):
            return YSer(lambda i: f(g(i), o), self.y0, self.y1)
        o = lift(o)
        if isinstance(o, (Arr, _np.ndarray)) and o.ndim == 1:      # by position
            n = num(o.shape[0])
            if not ctx().entailed(n.e == self.pv_len().e):
                raise Unsupported("arithmetic of a series and an array of another length")
            y0 = self.y0
            if isinstance(o, Arr):
                h = o.snap()
                return YSer(lambda i: f(g(i), h(num(i) - y0)), self.y0, self.y1)
            from .arrays import conc_get
            return YSer(lambda i: f(g(i), conc_get(o, [num(i) - y0])), self.y0, self.y1)
        raise Unsupported("series arithmetic")

    def __add__(s, o): return s._bin(o, lambda a, b: a + b)
    def __radd__(s, o): return s._bin(o, lambda a, b: b + a)
    def __sub__(s, o): return s._bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._bin(o, lambda a, b: b - a)
    def __mul__(s, o): return s._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(s, o): return s._bin(o, lambda a, b: a / b)
    def __neg__(s): return YSer(lambda i, g=s._get: -g(i), s.y0, s.y1)
    def __gt__(s, o): return s._bin(o, lambda a, b: a > b)
    def __ge__(s, o): return s._bin(o, lambda a, b: a >= b)
    def __lt__(s, o): return s._bin(o, lambda a, b: a < b)
    def __le__(s, o): return s._bin(o, lambda a, b: a <= b)

    def abs(self):
        return YSer(lambda i, g=self._get: abs(g(i)), self.y0, self.y1)

    def where(self, cond, other=0, **k):
        g, h = self._get, (cond._get if isinstance(cond, YSer) else None)
        if h is None or not is_num(other):
            raise Unsupported("where")
        return YSer(lambda i: ite(h(i), g(i), num(other)), self.y0, self.y1)

    def pv_len(self):
        return self.y1 - self.y0 + 1

    @property
    def index(self):
        return _Index(self)

    @index.setter
    def index(self, labels):
        lo, g, d = consecutive(labels, self.pv_len()), self._get, self.y0
        n = self.pv_len()
        d = d - lo
        self._get, self.y0, self.y1 = (lambda i: g(num(i) + d)), lo, lo + n - 1

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Series.{n}")


def YArr(a):
    return a


class _Index:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        k = num(k)
        if k.c is not None and k.c < 0:
            return self.f.y1 + 1 + k
        return self.f.y0 + k

    def pv_len(self):
        return self.f.y1 - self.f.y0 + 1

    def min(self):
        return self.f.y0

    def max(self):
        return self.f.y1

    def _cmp(self, f):
        return YSer(lambda y: f(num(y)), self.f.y0, self.f.y1)

    def __ge__(self, o): return self._cmp(lambda y: y >= o)
    def __gt__(self, o): return self._cmp(lambda y: y > o)
    def __le__(self, o): return self._cmp(lambda y: y <= o)
    def __lt__(self, o): return self._cmp(lambda y: y < o)

    def __getattr__(self, n):
        raise Unsupported(f"Index.{n}")


def smax2(a, b):
    from .shim_np import smax
    return smax(a, b)


def smin2(a, b):
    from .shim_np import smin
    return smin(a, b)


class _Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, tuple):
            y, c = k
            if isinstance(y, slice):
                return self[y][c]
            return self.f.cols[c][y]
        if isinstance(k, slice) and k.step is None:
            lo = self.f.y0 if k.start is None else smax2(self.f.y0, num(k.start))
            hi = self.f.y1 if k.stop is None else smin2(self.f.y1, num(k.stop))
            return self.f.cut(lo, hi)
        raise Unsupported("loc")

    def __setitem__(self, k, v):
        if not isinstance(k, tuple):
            raise Unsupported("loc")
        y, c = k
        self.f.cols[c][y] = v


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple):
            i, j = k
            if isinstance(j, slice) and j == slice(None):
                return [f.cols[c].iloc[i] for c in f.cols]
            return f.cols[f.columns[int(num(j))]].iloc[i]
        if isinstance(k, slice) and k.step is None:
            n = f.pv_len()
            lo = num(0) if k.start is None else num(k.start)
            hi = n if k.stop is None else smin2(n, num(k.stop))
            return f.cut(f.y0 + lo, f.y0 + hi - 1)
        raise Unsupported("iloc")


class YFrame:
    """table with one row per year y0..y1 and named columns"""

    def __init__(self, cols, y0, y1):
        self.__dict__.update(cols=dict(cols), y0=num(y0), y1=num(y1))

    def __setattr__(self, k, v):
        if k == "index":
            r = self.set_axis(v)
            self.__dict__.update(cols=r.cols, y0=r.y0, y1=r.y1)
        elif k == "columns":
            self.__dict__["cols"] = dict(zip(list(v), self.cols.values()))
        elif k in ("cols", "y0", "y1"):
            self.__dict__[k] = v
        else:
            raise Unsupported(f"assignment to DataFrame.{k}")

    def cut(self, lo, hi):
        return YFrame({c: YSer(v._get, lo, hi) for c, v in self.cols.items()}, lo, hi)

    def pv_len(self):
        return self.y1 - self.y0 + 1

    def relabel(self, y0):
        d = self.y0 - y0
        return YFrame({c: YSer(lambda y, g=v._get: g(num(y) + d), y0, y0 + self.pv_len() - 1) for c, v in self.cols.items()}, y0, y0 + self.pv_len() - 1)

    def set_axis(self, labels, axis=0, **k):
        lo = consecutive(labels, self.pv_len())
        return self.relabel(lo)

    def set_index(self, col, inplace=False, **k):
        c = self.cols[col]
        lo = consecutive(c.pv_array(), self.pv_len())
        r = YFrame({k: v for k, v in self.cols.items() if k != col}, self.y0, self.y1).relabel(lo)
        return self._into(r, inplace)

    def _into(self, r, inplace):
        if not inplace:
            return r
        self.__dict__.update(cols=r.cols, y0=r.y0, y1=r.y1)
        return None

    def rename(self, columns=None, inplace=False, index=None, **k):
        if index is not None or k or not isinstance(columns, dict):
            raise Unsupported("rename")
        return self._into(YFrame({columns.get(c, c): v for c, v in self.cols.items()}, self.y0, self.y1), inplace)

    def drop(self, index=None, columns=None, inplace=False, labels=None, axis=0, **k):
        if k or axis not in (0, "index") or (columns is not None and (index is not None or labels is not None)):
            raise Unsupported("drop")
        if columns is not None:
            cs = [columns] if isinstance(columns, str) else list(columns)
            for c in cs:
                if c not in self.cols:
                    raise KeyError(c)
            return self._into(YFrame({c: v for c, v in self.cols.items() if c not in cs}, self.y0, self.y1), inplace)
        index = labels if index is None else index
        lo, hi = self.y0, self.y1
        from .core import boolterm
        from .seq import SymRange
        c = ctx()
        for part in (getattr(index, "parts", None) or [index]):
            if isinstance(part, range) and part.step == 1:
                part = SymRange(part.start, part.stop)
            if isinstance(part, (list, tuple)) and not len(part):
                continue
            if not isinstance(part, SymRange):
                raise Unsupported("drop of these rows")
            a, b = part.lo, part.hi
            if c.decide(boolterm(b <= a)):
                continue
            if not c.entailed(boolterm(a >= lo)) or not c.entailed(boolterm(b <= hi + 1)):
                if c.decide(z3.And(boolterm(a >= lo), boolterm(b <= hi + 1))):
                    pass
                else:
                    raise KeyError("not found in axis")
            if c.decide(boolterm(a == lo)):
                lo = b
            elif c.decide(boolterm(b == hi + 1)):
                hi = a - 1
            else:
                raise Unsupported("drop of rows in the middle")
        return self._into(self.cut(lo, hi), inplace)

    def sum(self, axis=0, **k):
        if axis not in (1, "columns"):
            raise Unsupported("sum over rows")
        gs = [v._get for v in self.cols.values()]
        return YSer(lambda y: sum((g(y) for g in gs[1:]), gs[0](y)) if gs else num(0), self.y0, self.y1)

    def mean(self, axis=0, **k):
        return self.sum(axis=axis) / num(len(self.cols))

    def abs(self):
        return YFrame({c: v.abs() for c, v in self.cols.items()}, self.y0, self.y1)

    def __getitem__(self, k):
        if isinstance(k, (str, int)):
            return self.cols[k]
        if isinstance(k, YSer):
            return self.masked(k)
        return YFrame({c: self.cols[c] for c in k}, self.y0, self.y1)

    def masked(self, m):
        raise Unsupported("selection by a mask")

    def __setitem__(self, k, v):
        if not isinstance(v, YSer):
            if is_num(v):
                v = YSer(lambda y, v=num(v): v, self.y0, self.y1)
            else:
                a = lift(v)
                n = num(a.shape[0])
                if not ctx().entailed(n.e == self.pv_len().e):
                    if not bool(n == self.pv_len()):
                        raise ValueError("Length of values does not match length of index")
                y0 = self.y0
                from .arrays import conc_get
                v = YSer((lambda y, g=a.snap(): g(num(y) - y0)) if isinstance(a, Arr) else (lambda y: conc_get(a, [num(y) - y0])), self.y0, self.y1)
        self.cols[k] = v

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(self.cols)

    def keys(self):
        return list(self.cols)

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (self.pv_len(), len(self.cols))

    @property
    def empty(self):
        return False

    @property
    def index(self):
        return _Index(self)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    def copy(self, deep=True):
        return YFrame({k: v.copy() for k, v in self.cols.items()}, self.y0, self.y1)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("cols", {}):
            return self.cols[n]
        raise Unsupported(f"DataFrame.{n}")


def consecutive(labels, n):
    """first of n consecutive labels"""
    from .seq import SymRange, index_var, scope
    c = ctx()
    if isinstance(labels, SymRange):
        first, ln, at = labels.lo, labels.n, None
    else:
        if isinstance(labels, range):
            labels = list(labels)
        a = lift(labels)
        ln = num(a.shape[0])
        if isinstance(a, Arr):
            g = a.snap()
            first = g(num(0))
            k = index_var("label!k")
            with scope(z3.And(k >= 0, k < ln.e)):
                if not c.entailed(g(Num(k, True)).e == first.e + k):
                    raise Unsupported("labels that are not consecutive")
        else:
            first = num(a[0])
            for i in range(a.shape[0]):
                if not bool(num(a[i]) == first + i):
                    raise Unsupported("labels that are not consecutive")
    if not c.entailed(ln.e == num(n).e) and not bool(ln == num(n)):
        raise ValueError("Length mismatch")
    return first


class RCol(list):
    def _cmp(self, o, f):
        return RMask([f(x, o) for x in self])

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    __hash__ = None

    @property
    def values(self):
        return list(self)

    def to_numpy(self):
        return list(self)

    def tolist(self):
        return list(self)

    def unique(self):
        return unique(self)


class RMask(list):
    def __and__(self, o):
        return RMask([(bool(a) and bool(b)) for a, b in zip(self, o)])


class RowTable:
    """a table with a fixed number of rows, default index"""

    def __init__(self, rows, names):
        self.rows, self.names = rows, names

    def _col(self, k):
        return RCol([r[k] for r in self.rows])

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.names:
                raise KeyError(k)
            return self._col(k)
        if isinstance(k, RMask):
            return RowTable([r for r, b in zip(self.rows, k) if b], self.names)
        raise Unsupported("row table index")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("names", ()):
            return self._col(n)
        raise Unsupported(f"DataFrame.{n}")

    def itertuples(self, index=True, name="Pandas"):
        return [SimpleNamespace(Index=i, **r) for i, r in enumerate(self.rows)]

    def iterrows(self):
        return [(i, dict(r)) for i, r in enumerate(self.rows)]

    def pv_len(self):
        return num(len(self.rows))

    @property
    def empty(self):
        return not self.rows

    @property
    def columns(self):
        return list(self.names)


def unique(xs):
    out = []
    for x in xs:
        if not any(bool(x == y) for y in out):
            out.append(x)
    return out
