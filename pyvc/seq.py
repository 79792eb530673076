"""Symbolic sequences and bounded sums."""
import z3

from .core import Bool, Num, Sym, Unsupported, ctx, num


class SymSeq(Sym):
    """immutable sequence of symbolic length"""

    def __init__(self, n, get, kind="list"):
        self.n, self.get, self.kind = num(n), get, kind

    def pv_len(self):
        return self.n

    def __len__(self):
        if self.n.c is not None:
            return int(self.n.c)
        raise Unsupported("len of symbolic sequence (native)")

    def __getitem__(self, i):
        from . import arrays
        if isinstance(i, slice):
            _, a, d, st = arrays.slice_bounds(i, self.n)
            return SymSeq(d, lambda k: self.get(a + num(k) * st))
        return self.get(arrays.norm_index(i, self.n))

    def __iter__(self):
        if self.n.c is not None:
            return iter([self.get(num(i)) for i in range(int(self.n.c))])
        raise Unsupported("native iteration over symbolic sequence")

    def __contains__(self, x):
        raise Unsupported("membership in symbolic sequence")

    def pv_array(self):
        from . import arrays
        first = self.get(Num(z3.Int("probe!seq")))
        if isinstance(first, arrays.Arr):
            return arrays.Arr((self.n,) + first.shape, lambda i, *r: self.get(i).snap()(*r))
        return arrays.Arr((self.n,), lambda i: arrays.lift(self.get(i)))

    def index(self, v):
        """position of v (elements assumed distinct: lists of years)"""
        raise Unsupported("index in symbolic sequence")


    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)


class SymList(SymSeq):
    """list of symbolic length whose items are assigned by index"""

    def __init__(self, n, get):
        super().__init__(n, get, "list")

    def __setitem__(self, i, v):
        from . import arrays
        i = arrays.norm_index(i, self.n)
        g = self.get
        c = ctx()
        if c.write_log is not None:
            c.write_log.append((self, (i,), v))

        def get(j, g=g):
            e = num(j) == i
            return v if e is True or (e is not False and bool(e)) else g(j)
        self.get = get

    def copy(self):
        return SymList(self.n, self.get)


def seq_of(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, (list, tuple)):
        x = list(x)

        def get(i):
            i = num(i)
            if i.c is not None:
                return x[int(i.c)]
            for q in range(len(x) - 1):
                if bool(i == q):
                    return x[q]
            return x[-1]
        return SymSeq(num(len(x)), get)
    raise Unsupported("sequence of another type")


def concat(a, b):
    a, b = seq_of(a), seq_of(b)
    if a.n.c == 0:
        return b
    if b.n.c == 0:
        return a

    def get(i):
        i = num(i)
        e = i < a.n
        if e is True or (e is not False and bool(e)):
            return a.get(i)
        return b.get(i - a.n)
    return SymSeq(a.n + b.n, get)


def product(a, b):
    """itertools.product of two sequences"""
    a, b = seq_of(a), seq_of(b)
    return SymSeq(a.n * b.n, lambda i: (a.get(num(i) // b.n), b.get(num(i) % b.n)))


class SFmt(Sym):
    """text assembled from fixed pieces and numbers"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "".join(str(p) for p in self.parts)


def fmt(*parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, SFmt) else [p]):
            if isinstance(q, Num) and q.c is not None and q.isint:
                q = str(int(q.c))
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
    out = [q for q in out if q != "" or not isinstance(q, str)]
    if all(isinstance(q, str) for q in out):
        return "".join(out)
    return SFmt(out)


def snapshot(v):
    """copy of a value whose mutable parts may change later"""
    import numpy as np
    from .arrays import Arr
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x) for x in v)
    if isinstance(v, (Arr, np.ndarray, SymList)):
        return v.copy()
    return v


def at(k, t, g, *i):
    """g evaluated in iteration t: decisions taken on the way are about t"""
    c = ctx()
    c.substs.append((k, t))
    try:
        return g(*i)
    finally:
        c.substs.pop()


def subst(v, k, t):
    """the value with iteration number k replaced by t"""
    import copy
    import numpy as np
    from .arrays import Arr
    from .core import Str
    if z3.is_expr(t) and t.eq(k):
        return v
    if isinstance(v, Num):
        return v if v.c is not None else Num(z3.simplify(z3.substitute(v.e, (k, t))), v.isint)
    if isinstance(v, Bool):
        return Bool(z3.substitute(v.e, (k, t)))
    if isinstance(v, Str):
        return Str(z3.substitute(v.e, (k, t)))
    if isinstance(v, SFmt):
        return fmt(*[subst(x, k, t) for x in v.parts])
    if isinstance(v, dict):
        return {subst(a, k, t): subst(b, k, t) for a, b in v.items()}
    if isinstance(v, list):
        return [subst(x, k, t) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, k, t) for x in v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        out = v.copy()
        for i in np.ndindex(*v.shape):
            out[i] = subst(v[i], k, t)
        return out
    if isinstance(v, Arr):
        g = v.snap()
        sh = tuple(d if isinstance(d, int) else subst(num(d), k, t) for d in v.shape)
        return Arr(sh, lambda *i: subst(at(k, t, g, *i), k, t))
    if isinstance(v, SymSeq):
        g = v.get
        return SymSeq(subst(v.n, k, t), lambda i: subst(at(k, t, g, i), k, t), v.kind)
    if getattr(type(v), "pv_heap", False) and hasattr(v, "__dict__"):
        o = copy.copy(v)
        o.__dict__ = {a: subst(b, k, t) for a, b in vars(v).items()}
        return o
    return v


class SymRange(SymSeq):
    def __init__(self, lo, hi):
        self.lo, self.hi = num(lo), num(hi)
        d = self.hi - self.lo
        if d.c is not None:
            d = num(max(0, int(d.c)))
        elif not ctx().entailed(d.e >= 0):
            from .arrays import ite
            d = ite(d >= 0, d, num(0))
        super().__init__(d, lambda k: self.lo + k, "range")

    def __contains__(self, x):
        x = num(x)
        return bool(Bool(z3.And((x.e >= self.lo.e), (x.e < self.hi.e))))


class scope:
    """temporary assumptions (body of a binder): no path forks inside"""

    def __init__(self, *conds):
        self.conds = conds

    def __enter__(self):
        c = ctx()
        self.c = c
        self.saved = (len(c.pc), dict(c.known), c.binder, len(c.facts))
        c._sol().push()
        c._isol().push()
        if c.binder == 0:
            c.scope_base = len(c.pc)
        c.binder = c.binder + 1
        for x in self.conds:
            c.assume(x)
        return self

    def __exit__(self, *a):
        c = self.c
        c._sol().pop()
        c._isol().pop()
        c.pc = c.pc[: self.saved[0]]
        c.known = self.saved[1]
        c.binder = self.saved[2]
        from .core import has_nonlinear
        for f in c.facts[self.saved[3]:]:     # facts are universally valid: keep them in the solver
            if not has_nonlinear(f):
                c._sol().add(f)
                c._isol().add(f)


def int_consts(t):
    """free uninterpreted constants flagged as index variables"""
    out, seen, todo = [], set(), [t]
    iv = ctx().store.index_vars
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in iv:
                out.append(x)
            todo.extend(x.children())
    return sorted(out, key=lambda v: v.decl().name())


def index_var(name):
    c = ctx()
    c.store.index_vars.add(name)
    return z3.Int(name)


def Sum(lo, hi, f):
    """sum of f(j) for lo <= j < hi"""
    lo, hi = num(lo), num(hi)
    c = ctx()
    d = hi - lo
    from . import ring
    if d.c is None and not ring.has_ite(d.e):
        # canonicalise: constant length hidden behind symbolic bounds
        dd = z3.simplify(d.e)
        if z3.is_int_value(dd):
            d = num(dd.as_long())
    if d.c is not None and d.c <= 64:
        r = num(0)
        for i in range(int(d.c)):
            r = r + f(lo + i)
        return r
    depth = c.sumdepth
    J = index_var(f"J!{depth}")
    c.sumdepth += 1
    try:
        with scope(z3.And(J >= lo.e, J < hi.e)):
            body = num(f(Num(J, True))).real
            sign = None
            if c.sumdepth == 1:
                sign = "pos" if c.entailed(body > 0) else "nonneg" if c.entailed(body >= 0) else None
    finally:
        c.sumdepth -= 1
    body = z3.simplify(body)
    if z3.is_rational_value(body):
        if body.as_fraction() == 0:
            return num(0)
    r = mksum(lo.e, hi.e, J, body)
    if sign:
        under = c.pc[c.scope_base:] if c.binder else []
        c.fact(z3.Implies(z3.And(hi.e > lo.e, *under), r.e > 0 if sign == "pos" else r.e >= 0))
    return r


def mksum(lo, hi, J, body):
    c = ctx()
    params = [p for p in int_consts(body) if not p.eq(J)]
    st = c.store
    key = (J.get_id(), body.get_id())
    ent = st.sum_by_body.get(key)
    if ent is None:
        nm = f"SUM{len(st.sum_by_body)}"
        fn = z3.Function(nm, z3.IntSort(), z3.IntSort(), *[z3.IntSort()] * len(params), z3.RealSort())
        ent = (fn, J, params, body)
        st.sum_by_body[key] = ent
        st.sums[nm] = ent
    fn, J, params, body = ent
    t = fn(lo, hi, *params)
    c.fact(z3.Implies(hi <= lo, t == 0))
    return Num(t, False)


def sum_body(app, j):
    """body of a SUM application instantiated at index j"""
    fn, J, params, body = ctx().store.sums[app.decl().name()]
    args = app.children()
    sub = [(J, j)] + list(zip(params, args[2:]))
    return z3.substitute(body, *sub)


def is_sum(t):
    return z3.is_app(t) and t.decl().name() in ctx().store.sums
