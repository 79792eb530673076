"""pandas / scipy as seen by the verified code (only what the contracts need)."""
import numpy as _np
import z3

from . import arrays
from .arrays import Arr, lift, obj
from .core import Num, Unsupported, ctx, num


class Frame:
    """table with named columns; columns hold arrays"""

    def __init__(self, data=None, index=None, columns=None):
        self.cols = dict(data) if data is not None else {}
        self.index = index

    def __getitem__(self, k):
        return self.cols[k]

    def __setitem__(self, k, v):
        self.cols[k] = v

    def __contains__(self, k):
        return k in self.cols

    @property
    def columns(self):
        return list(self.cols)

    def copy(self, deep=True):
        return Frame({k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.cols.items()}, self.index)

    def __getattr__(self, n):
        raise Unsupported(f"DataFrame.{n}")


def native(x):
    """Num constants used as labels -> python ints"""
    if isinstance(x, Num) and x.c is not None:
        return int(x.c) if x.c.denominator == 1 else float(x.c)
    return x


class _FrameMeta(type):
    def __instancecheck__(cls, o):
        import pandas
        return isinstance(o, (Frame, pandas.DataFrame)) or type(o).__name__ in ("YFrame", "RowTable")


class s_frame(metaclass=_FrameMeta):
    """tables of symbolic numbers: real pandas objects when the number of rows is fixed"""

    def __new__(cls, data=None, index=None, columns=None, **k):
        import pandas
        vals = list(data.values()) if isinstance(data, dict) else [data]
        if isinstance(index, Arr) and not k:
            r = cls.labelled(data, index, columns)
            if r is not None:
                return r
        if any(isinstance(v, Arr) for v in vals) or isinstance(index, Arr):
            return Frame(data, index, columns)
        if index is not None:
            index = [native(i) for i in index]
        if isinstance(data, dict):
            data = {c: ({native(y): q for y, q in v.items()} if isinstance(v, dict) else v) for c, v in data.items()}
        return pandas.DataFrame(data=data, index=index, columns=columns, **k)


    @staticmethod
    def labelled(data, index, columns):
        from .frames import YFrame, YSer, consecutive
        n = num(index.shape[0])
        try:
            y0 = consecutive(index, n)
        except Unsupported:
            return None

        def ser(g):
            return YSer(lambda y: g(num(y) - y0), y0, y0 + n - 1)
        if isinstance(data, dict):
            if not all(isinstance(v, Arr) and v.ndim == 1 for v in data.values()):
                return None
            return YFrame({c: ser(v.snap()) for c, v in data.items()}, y0, y0 + n - 1)
        if isinstance(data, Arr) and data.ndim <= 2:
            m = 1 if data.ndim == 1 else data.shape[1]
            if not isinstance(m, int):
                return None
            g = data.snap()
            cols = list(columns) if columns is not None else list(range(m))
            return YFrame({c: ser((lambda i, j=j: g(i, num(j))) if data.ndim == 2 else g) for j, c in enumerate(cols)}, y0, y0 + n - 1)
        return None


class _SeriesMeta(type):
    def __instancecheck__(cls, o):
        import pandas
        from .frames import YSer
        return isinstance(o, (pandas.Series, YSer))


class s_series(metaclass=_SeriesMeta):
    """pandas.Series: of an array of any length, or the real thing"""

    def __new__(cls, data=None, index=None, **k):
        import pandas
        from .frames import YSer
        if isinstance(data, YSer):
            r = YSer(data._get, data.y0, data.y1)
        elif isinstance(data, Arr):
            if data.ndim != 1 or k.get("dtype") not in (None, float, "float64"):
                raise Unsupported("Series")
            n, g = num(data.shape[0]), data.snap()
            r = YSer(lambda i: g(num(i)), num(0), n - 1)
        else:
            return pandas.Series(data, index=index, **k)
        if index is not None:
            r.index = index
        return r


class _PD:
    DataFrame = s_frame
    Series = s_series

    def unique(self, x):
        from .frames import unique
        return unique(x)

    def concat(self, objs, axis=0, **k):
        import pandas
        if all(isinstance(o, (pandas.DataFrame, pandas.Series)) for o in objs):
            return pandas.concat(objs, axis=axis, **k)
        raise Unsupported("concat")

    def __getattr__(self, n):
        raise Unsupported(f"pandas.{n}")


PD = _PD()


class _Sci:
    def __getattr__(self, n):
        raise Unsupported(f"scipy.{n}")


SCIPY = _Sci()


class _Linalg:
    """solve_banded((1,1), ab, d): assumed contract A x = d (A given in banded form)"""

    def solve_banded(self, lu, ab, d, **k):
        l, u = lu
        if (int(num(l)), int(num(u))) != (1, 1):
            raise Unsupported("band width")
        ab, d = lift(ab), lift(d)
        c = ctx()
        n = d.shape[0]
        if getattr(c, "solve_hook", None) is not None and isinstance(n, int):
            return c.solve_hook(ab, d)   # contract-level reasoning by the harness (uniqueness of the solution)
        f = c.fresh_fn("solve", [z3.IntSort()], z3.RealSort())
        x = Arr((n,), lambda j: Num(f(num(j).e), False))
        if isinstance(n, int):
            xs = obj((n,))
            for j in range(n):
                xs[j] = Num(f(z3.IntVal(j)), False)
            rows = []
            for i in range(n):
                e = ab[1, i] * xs[i]
                if i > 0:
                    e = e + ab[2, i - 1] * xs[i - 1]
                if i < n - 1:
                    e = e + ab[0, i + 1] * xs[i + 1]
                rows.append((e, d[i]))
            c.store_solves.append((xs, [ [ab[k, j] for j in range(n)] for k in range(3)], [d[i] for i in range(n)], rows))
            return xs
        raise Unsupported("solve_banded with a symbolic number of layers")

    def __getattr__(self, n):
        raise Unsupported(f"scipy.linalg.{n}")


LINALG = _Linalg()


class _Itertools:
    def product(self, *a, **k):
        from .builtin_shims import symbolic_iter
        from .seq import product
        import itertools
        if len(a) == 2 and not k and any(symbolic_iter(x) for x in a):
            return product(*a)
        return itertools.product(*a, **k)

    def __getattr__(self, n):
        import itertools
        return getattr(itertools, n)


ITERTOOLS = _Itertools()
