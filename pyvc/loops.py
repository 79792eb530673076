"""Loops over symbolic ranges: one arbitrary iteration is executed (every local
path), the cells it modifies become functions of the iteration number, and the
state after the loop is described by the resulting recurrences.

  cell(0) = value on entry,   cell(m+1) = T(m)   for 0 <= m < n.

Scalars that only accumulate become bounded sums; arrays written once per
iteration at index k+c become a stretch of per-iteration values.  Everything
else stays a recurrence that the prover unfolds.
"""
import sys
import types

import numpy as _np
import z3

from . import arrays, core
from .arrays import Arr, ite, lift, obj
from .core import Bool, Num, PathEnd, Stop, Str, Sym, Unsupported, ctx, is_num, num
from .explore import Local
from .seq import SymList, SymSeq, index_var, mksum, snapshot, subst


class Undef:
    def _bad(self, *a, **k):
        raise Unsupported("value that is undefined or opaque after a summarised loop")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _bad
    __getitem__ = __call__ = __bool__ = __len__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = _bad

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._bad()


UNDEF = Undef()


class AppendOnly:
    """a list that grows in a summarised loop, as seen by the loop body"""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def extend(self, x):
        self.items.extend(x)

    def __iadd__(self, x):
        self.items.extend(x)
        return self

    def _bad(self, *a, **k):
        raise Unsupported("a growing list is read inside a summarised loop")
    __getitem__ = __bool__ = __len__ = __iter__ = __add__ = __radd__ = __contains__ = __eq__ = pv_len = _bad
    __hash__ = None


def heap_ok(o):
    t = type(o)
    if getattr(t, "pv_heap", False):
        return True
    return getattr(t, "__module__", "").startswith("ciceroscm")


def children(o):
    if isinstance(o, dict):
        return list(o.values())
    if isinstance(o, (list, tuple)):
        return list(o)
    if isinstance(o, Arr):
        return [o.base] if o.base is not None else []
    if isinstance(o, _np.ndarray):
        return [o.base] if o.base is not None else []
    if heap_ok(o) and hasattr(o, "__dict__"):
        return list(vars(o).values())
    return []


def is_container(o):
    if isinstance(o, (dict, list, SymList)):
        return True
    if isinstance(o, Arr):
        return o.base is None
    if isinstance(o, _np.ndarray):
        return o.dtype == object and o.base is None
    return heap_ok(o) and hasattr(o, "__dict__") and not isinstance(o, (type, types.FunctionType, types.ModuleType))


def walk(roots):
    out, todo, seen = {}, list(roots), set()
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (str, int, float, type, types.ModuleType, types.FunctionType)):
            continue
        seen.add(id(o))
        if is_container(o):
            out[id(o)] = o
        todo += children(o)
    return out


def contents(o):
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, list):
        return list(o)
    if isinstance(o, Arr):
        return o._get
    if isinstance(o, SymList):
        return o.get
    if isinstance(o, _np.ndarray):
        return o.copy()
    return dict(vars(o))


def restore(o, c):
    if isinstance(o, dict):
        o.clear()
        o.update(c)
    elif isinstance(o, list):
        o[:] = c
    elif isinstance(o, Arr):
        o._get = c
    elif isinstance(o, SymList):
        o.get = c
    elif isinstance(o, _np.ndarray):
        o[...] = c
    else:
        d = vars(o)
        d.clear()
        d.update(c)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.isint == b.isint and a.e.eq(b.e)
    if is_num(a) and is_num(b) and not isinstance(a, Num) and not isinstance(b, Num):
        return a == b and isinstance(a, int) == isinstance(b, int)
    if isinstance(a, (str, bool, type(None))) and isinstance(b, (str, bool, type(None))):
        return a == b
    if isinstance(a, Bool) and isinstance(b, Bool):
        return a.e.eq(b.e)
    return False


def pick(paths, k, t):
    """the values of the path taken in iteration t"""
    if len(paths) == 1:
        return paths[0][1]
    for cond, v in paths[:-1]:
        if bool(Bool(z3.simplify(z3.substitute(cond, (k, t))))):
            return v
    return paths[-1][1]


class Cell:
    def __init__(self, key, kind, init):
        self.key, self.kind, self.init = key, kind, init
        self.isint = False
        self.uf = None
        self.shape = None
        self.off = None     # structured array writes
        self.T = None


class LoopBase:
    def __init__(self, key, names):
        c = ctx()
        self.c = c
        c.loopocc += 1
        self.key = f"{key.split('.')[-1]}.{c.loopocc}"
        self.names = names

    # ---------------------------------------------------------------- setup
    def start(self, loc):
        self.pre = {n: loc.get(n, UNDEF) for n in self.names}
        roots = [v for n, v in loc.items() if not n.startswith("L__") and not n.startswith("it__")]
        self.heap = walk(roots)
        self.entry = {i: contents(o) for i, o in self.heap.items()}
        self.cells = {}
        self.k = index_var(f"k!{self.key}" + ("@" + ",".join(map(str, self.c.skolems)) if self.c.skolems else ""))
        self.round = -1
        self.stack = []
        self.paths = []
        self.phase = "new"
        self.active = False

    def kn(self):
        return Num(self.k, True)

    # ---------------------------------------------------------------- havoc values
    def mkcell(self, key, init, newval, writes):
        c = self.c
        if key[0] == "P":
            lst = self.heap[key[1]]
            if any(x is lst for i, h in self.heap.items() for x in children(h)):
                raise Unsupported("a growing list that is stored elsewhere")
            cell = Cell(key, "grow", self.entry[key[1]])
            cell.per = len(newval)
            return cell
        if key[0] == "A" and isinstance(self.heap[key[1]], SymList):
            cell = Cell(key, "olist", self.entry[key[1]])
            offs = {z3.simplify(idx[0].e - self.k) for a, idx, v in writes if a is self.heap[key[1]]}
            from .prove import occurs
            if len(offs) != 1 or occurs(self.k, min(offs, key=str)):
                raise Unsupported("item assignments of a summarised loop")
            cell.off = Num(offs.pop(), True)
            return cell
        if key[0] == "A":
            o = self.heap[key[1]]
            if isinstance(o, _np.ndarray):
                cell = Cell(key, "nd", self.entry[key[1]])
                cell.shape = o.shape
            else:
                cell = Cell(key, "arr", self.entry[key[1]])
                cell.shape = o.shape
                offs = set()
                ok = o.ndim == 1
                for a, idx, v in writes:
                    if a is not o:
                        continue
                    if idx is None:
                        ok = False
                        break
                    d = z3.simplify(idx[0].e - self.k)
                    offs.add(d)
                if ok and len(offs) == 1:
                    d = offs.pop()
                    from .prove import occurs
                    if not occurs(self.k, d):
                        cell.kind = "seq"
                        cell.off = Num(d, True)
            nidx = len(cell.shape)
            if cell.kind == "seq":
                cell.uf = c.fresh_fn(f"V.{self.key}", [z3.IntSort()], z3.RealSort())
            else:
                cell.uf = c.fresh_fn(f"A.{self.key}", [z3.IntSort()] * (1 + nidx), z3.RealSort())
            return cell
        v = newval
        if isinstance(v, bool) or isinstance(v, Bool):
            cell = Cell(key, "bool", init)
            cell.uf = c.fresh_fn(f"b.{self.key}", [z3.IntSort()], z3.BoolSort())
        elif is_num(v):
            cell = Cell(key, "num", init)
            cell.isint = num(v).isint and (not is_num(init) or num(init).isint)
            cell.uf = c.fresh_fn(f"s.{self.key}.{key[-1]}", [z3.IntSort()], z3.IntSort() if cell.isint else z3.RealSort())
        elif isinstance(v, (Arr, _np.ndarray)) and not (isinstance(v, _np.ndarray) and v.dtype != object):
            cell = Cell(key, "aval", init)
            cell.shape = tuple(v.shape)
            cell.conc = isinstance(v, _np.ndarray)
            cell.uf = c.fresh_fn(f"v.{self.key}.{key[-1]}", [z3.IntSort()] * (1 + len(v.shape)), z3.RealSort())
        else:
            cell = Cell(key, "opaque", init)
        return cell

    def havoc(self, cell):
        k = self.k
        if cell.kind == "num":
            return Num(cell.uf(k), cell.isint)
        if cell.kind == "bool":
            return Bool(cell.uf(k))
        if cell.kind == "aval":
            return self.arrval(cell, k)
        return UNDEF

    def arrval(self, cell, t):
        if cell.conc:
            out = obj(cell.shape)
            for i in _np.ndindex(*cell.shape):
                out[i] = Num(cell.uf(t, *[z3.IntVal(x) for x in i]), False)
            return out
        return Arr(cell.shape, lambda *i: Num(cell.uf(t, *[num(x).e for x in i]), False))

    def inplace(self, cell, t):
        """contents of an in-place modified array at iteration t"""
        if cell.kind == "nd":
            out = obj(cell.shape)
            for i in _np.ndindex(*cell.shape):
                out[i] = Num(cell.uf(t, *[z3.IntVal(x) for x in i]), False)
            return out
        if cell.kind == "seq":
            off, init, uf = cell.off, cell.init, cell.uf

            def get(j):
                j = num(j)
                r = j - off
                cond = z3.simplify(z3.And(r.e >= 0, r.e < t))
                if z3.is_true(cond):
                    return Num(uf(z3.simplify(r.e)), False)
                if z3.is_false(cond):
                    return init(j)
                c = ctx()
                if c.entailed(cond):
                    return Num(uf(z3.simplify(r.e)), False)
                if c.entailed(z3.Not(cond)):
                    return init(j)
                return ite(Bool(cond), Num(uf(z3.simplify(r.e)), False), init(j))
            return get
        return lambda *i: Num(cell.uf(t, *[num(x).e for x in i]), False)

    # ---------------------------------------------------------------- driving
    def next(self):
        if self.phase == "done":
            return False
        if self.phase == "new":
            if self.empty():
                self.phase = "done"
                self.skip = True
                return False
            self.skip = False
            self.begin_round()
        elif not self.stack:
            if not self.end_round():
                return False
        self.begin_path(self.stack.pop())
        return True

    def begin_round(self):
        self.phase = "run"
        self.round += 1
        if self.round > 8:
            raise Unsupported("loop analysis does not stabilise")
        self.stack = [[]]
        self.paths = []

    def begin_path(self, prefix):
        c = self.c
        if len(self.paths) > 64:
            raise Unsupported("too many paths in a loop body")
        self.L = Local(prefix)
        self.saved = (len(c.pc), dict(c.known), c.binder, c.write_log, len(c.facts))
        c._sol().push()
        c._isol().push()
        if c.binder == 0 and not c.locals:
            c.scope_base = len(c.pc)
        c.binder += 1
        c.locals.append(self.L)
        c.skolems.append(self.k)
        c.write_log = []
        for x in self.domain():
            c.assume(x)
        # heap at the start of the iteration
        for i, o in self.heap.items():
            restore(o, self.entry[i])
        for cell in self.cells.values():
            if cell.key[0] == "H":
                o = self.heap[cell.key[1]]
                v = self.havoc(cell)
                if isinstance(o, dict):
                    o[cell.key[2]] = v
                elif isinstance(o, list):
                    o[cell.key[2]] = v
                else:
                    vars(o)[cell.key[2]] = v
            elif cell.key[0] == "A":
                if cell.kind == "olist":
                    def poison(j):
                        raise Unsupported("items assigned in a summarised loop are read in it")
                    restore(self.heap[cell.key[1]], poison)
                else:
                    restore(self.heap[cell.key[1]], self.inplace(cell, self.k))
        self.begin_heap = {i: contents(o) for i, o in self.heap.items()}
        self.isdead = self.isexit = self.isbreak = False
        self.active = True

    def load(self):
        vals = []
        for n in self.names:
            cell = self.cells.get(("L", n))
            vals.append(self.havoc(cell) if cell is not None else self.pre[n])
        self.prox = {}
        for q, n in enumerate(self.names):
            v = vals[q]
            if isinstance(v, list) and ("P", id(v)) in self.cells:
                vals[q] = self.prox.setdefault(id(v), AppendOnly())
        self.begin_locals = dict(zip(self.names, vals))
        return tuple(vals)

    def dead(self):
        self.isdead = True

    def brk(self):
        raise Unsupported("break out of a summarised loop")

    def exits(self):
        self.isexit = True

    def record(self, loc):
        c = self.c
        et = sys.exc_info()[0]
        log = c.write_log
        # pop scope
        c._sol().pop()
        c._isol().pop()
        c.pc = c.pc[: self.saved[0]]
        c.known, c.binder, c.write_log = self.saved[1], self.saved[2], self.saved[3]
        from .core import has_nonlinear
        for f in c.facts[self.saved[4]:]:
            if not has_nonlinear(f):
                c._sol().add(f)
                c._isol().add(f)
        c.locals.pop()
        c.skolems.pop()
        self.active = False
        if et is not None and not self.isdead:
            if issubclass(et, Stop):
                return
            raise Unsupported(f"exception inside a summarised loop: {et.__name__}: {sys.exc_info()[1]}")
        self.stack += self.L.alts
        if self.isdead or self.isexit:
            return
        mods = {}
        for i, o in self.heap.items():
            b = self.begin_heap[i]
            if isinstance(o, Arr):
                if o._get is not b:
                    mods[("A", i)] = o._get
            elif isinstance(o, _np.ndarray):
                if any(not same(x, y) for x, y in zip(o.flat, b.flat)):
                    mods[("A", i)] = o.copy()
            elif isinstance(o, SymList):
                if o.get is not b:
                    mods[("A", i)] = o.get
            elif isinstance(o, list):
                if ("P", i) in self.cells:
                    if len(o) != len(b):
                        raise Unsupported("list length changes in a summarised loop")
                    if i in self.prox:
                        mods[("P", i)] = [snapshot(x) for x in self.prox[i].items]
                    continue
                if len(o) > len(b) and all(same(x, y) for x, y in zip(o, b)):
                    mods[("P", i)] = [snapshot(x) for x in o[len(b):]]
                    continue
                if len(o) != len(b):
                    raise Unsupported("list length changes in a summarised loop")
                for q, (x, y) in enumerate(zip(o, b)):
                    if not same(x, y):
                        mods[("H", i, q)] = x
            else:
                cur = o if isinstance(o, dict) else vars(o)
                for q in set(b) - set(cur):
                    raise Unsupported("key removed in a summarised loop")
                for q, x in cur.items():
                    if q not in b or not same(x, b[q]):
                        mods[("H", i, q)] = x
        for n in self.names:
            if n in loc and not same(loc[n], self.begin_locals[n]):
                mods[("L", n)] = loc[n]
        cond = z3.And(*self.L.conds) if self.L.conds else z3.BoolVal(True)
        # freeze mutable values
        fr = {}
        for q, v in mods.items():
            if isinstance(v, Arr):
                v = v.copy()
            elif isinstance(v, _np.ndarray):
                v = v.copy()
            fr[q] = v
        log = [(a, idx, snapshot(v)) if isinstance(a, SymList) else (a, idx, v) for a, idx, v in log]
        self.paths.append((cond, fr, log))

    def init_of(self, key):
        if key[0] == "L":
            return self.pre[key[1]]
        if key[0] == "H":
            e = self.entry[key[1]]
            if isinstance(e, list):
                return e[key[2]]
            return e.get(key[2], UNDEF)
        return self.entry[key[1]]

    def end_round(self):
        """True: another round has begun"""
        for i, o in self.heap.items():
            restore(o, self.entry[i])
        new = False
        if not self.paths:
            self.phase = "done"
            self.finish()
            return False
        allw = [w for p in self.paths for w in p[2]]
        for cond, mods, log in self.paths:
            for q, v in mods.items():
                old = self.cells.get(q)
                if old is None:
                    self.cells[q] = self.mkcell(q, self.init_of(q), v, allw)
                    new = True
                elif old.kind == "num" and old.isint and is_num(v) and not num(v).isint:
                    old.isint = False
                    old.uf = self.c.fresh_fn(f"s.{self.key}.{q[-1]}", [z3.IntSort()], z3.RealSort())
                    new = True
                elif old.kind == "seq":
                    ws = [w for w in log if w[0] is self.heap[q[1]]]
                    bad = any(w[1] is None or not z3.simplify(w[1][0].e - self.k - old.off.e).eq(z3.IntVal(0)) for w in ws)
                    if bad:
                        nc = Cell(q, "arr", old.init)
                        nc.shape = old.shape
                        nc.uf = self.c.fresh_fn(f"A.{self.key}", [z3.IntSort()] * (1 + len(nc.shape)), z3.RealSort())
                        self.cells[q] = nc
                        new = True
                elif old.kind in ("num", "bool", "aval") and not self.fits(old, v):
                    self.cells[q] = Cell(q, "opaque", old.init)
                    new = True
        if new:
            self.begin_round()
            return True
        self.phase = "done"
        self.finish()
        return False

    def fits(self, cell, v):
        if cell.kind == "num":
            return is_num(v) or isinstance(v, Bool)
        if cell.kind == "bool":
            return isinstance(v, (bool, Bool))
        if cell.kind == "aval":
            return isinstance(v, (Arr, _np.ndarray)) and len(v.shape) == len(cell.shape)
        return True

    # ---------------------------------------------------------------- lists of objects
    def grown(self, cell):
        """the list after the loop"""
        pre, per, n = list(cell.init), cell.per, Num(self.count(), True)
        paths = []
        for cond, mods, log in self.paths:
            items = mods.get(cell.key, [])
            if len(items) != per:
                raise Unsupported("a list grows by a varying number of items in a summarised loop")
            paths.append((cond, items))
        k = self.k

        def get(j):
            j = num(j)
            if pre:
                e = j < len(pre)
                if e is True or (e is not False and bool(e)):
                    from .seq import seq_of
                    return seq_of(pre).get(j)
                j = j - len(pre)
            t, q = (j, num(0)) if per == 1 else (j // per, j % per)
            t = Num(z3.simplify(t.e), True)
            items = pick(paths, k, t.e)
            for w in range(per - 1):
                e = q == w
                if e is True or (e is not False and bool(e)):
                    return subst(items[w], k, t.e)
            return subst(items[-1], k, t.e)
        return SymSeq(n * per + len(pre), get)

    def assigned(self, cell):
        o, init, off, k = self.heap[cell.key[1]], cell.init, cell.off, self.k
        n = self.count()
        paths = []
        for cond, mods, log in self.paths:
            w = [v for a, idx, v in log if a is o]
            paths.append((cond, w[-1:]))

        def get(j):
            r = num(j) - off
            if bool(Bool(z3.simplify(z3.And(r.e >= 0, r.e < n)))):
                w = pick(paths, k, r.e)
                if w:
                    return subst(w[0], k, z3.simplify(r.e))
            return init(j)
        return get

    # ---------------------------------------------------------------- summary
    def merged_term(self, cell):
        """z3 term (num/bool) of the new value as a function of k"""
        k = self.k
        cur = cell.uf(k)
        vals = []
        for cond, mods, log in self.paths:
            v = mods.get(cell.key)
            if v is None:
                t = cur
            elif cell.kind == "bool":
                from .core import boolterm
                t = boolterm(v)
            else:
                t = num(v).e if cell.isint else num(v).real
            vals.append((cond, t))
        r = vals[-1][1]
        for cond, t in reversed(vals[:-1]):
            if not t.eq(r):
                r = z3.If(cond, t, r)
        return r

    def finish(self):
        c = self.c
        n = self.count()
        k = self.k
        st = c.store
        for cell in self.cells.values():
            if cell.kind in ("num", "bool"):
                T = self.merged_term(cell)
                cell.T = T
                self.register_scalar(cell, T, n)
            elif cell.kind == "seq":
                w = []
                o = self.heap[cell.key[1]]
                for cond, mods, log in self.paths:
                    v = None
                    for a, idx, val in log:
                        if a is o:
                            v = val.real
                    if v is None:
                        v = num(cell.init(self.kn() + cell.off)).real
                    w.append((cond, v))
                r = w[-1][1]
                for cond, t in reversed(w[:-1]):
                    if not t.eq(r):
                        r = z3.If(cond, t, r)
                cell.T = r
                name = cell.uf(k).decl().name()

                def fn(app, ent, r=r):
                    t = app.children()[-1]
                    if ent(z3.And(t >= 0, t < n)):
                        return z3.substitute(r, (k, t))
                    return None
                st.rec[name] = ("seq", self, fn)
            elif cell.kind in ("aval", "nd", "arr"):
                self.register_array(cell, n)
        st.loops[self.key] = self

    def register_scalar(self, cell, T, n):
        st = self.c.store
        k = self.k
        cur = cell.uf(k)
        name = cur.decl().name()
        init = cell.init
        it = None
        if is_num(init):
            it = num(init).e if cell.isint else num(init).real
        elif isinstance(init, (bool, Bool)):
            from .core import boolterm
            it = boolterm(init)
        acc = None
        if cell.kind == "num" and it is not None:
            acc = self.accumulator(cell, T, cur)
        if acc is not None:
            J = index_var(f"J!{self.c.sumdepth}")
            body = z3.simplify(z3.substitute(acc, (k, J)))
            if not cell.isint:
                s = mksum(z3.IntVal(0), z3.IntVal(1), J, body)
                sfn = s.e.decl()
                tail = s.e.children()[2:]

                def fn(app, ent):
                    t = app.children()[-1]
                    if ent(z3.And(t >= 0, t <= n)):
                        return it + sfn(z3.IntVal(0), t, *tail)
                    return None
                st.rec[name] = ("acc", self, fn)
                cell.kind2 = "acc"
                return
            if z3.is_int_value(body):
                def fn(app, ent):
                    t = app.children()[-1]
                    if ent(z3.And(t >= 0, t <= n)):
                        return it + body * t
                    return None
                st.rec[name] = ("acc", self, fn)
                return

        def fn(app, ent):
            t = app.children()[-1]
            if it is not None and ent(t == 0):
                return it
            if ent(z3.And(t >= 1, t <= n)):
                return z3.substitute(T, (k, z3.simplify(t - 1)))
            if it is not None and ent(z3.And(t >= 0, t <= n)):
                return z3.If(t == 0, it, z3.substitute(T, (k, z3.simplify(t - 1))))
            return None
        st.rec[name] = ("rec", self, fn)

    def accumulator(self, cell, T, cur):
        from .prove import occurs, Prover
        from . import ring
        zero = z3.IntVal(0) if cell.isint else z3.RealVal(0)
        if not occurs(cur, T):
            return None
        g = z3.simplify(z3.substitute(T, (cur, zero)))
        if occurs(cur, g):
            return None
        p = Prover(self.c)
        p.budget = 5 * core.SLOW
        try:
            d = T - cur - g
            if cell.isint:
                d = z3.ToReal(z3.simplify(d))
            n = p.zero_pure(d)
        except (ring.TooBig, Unsupported):
            return None
        return g if n else None

    def register_array(self, cell, n):
        st = self.c.store
        k = self.k
        nd = len(cell.shape)
        name = cell.uf(k, *[z3.IntVal(0)] * nd).decl().name()
        vals = []
        for cond, mods, log in self.paths:
            v = mods.get(cell.key)
            vals.append((cond, v))
        nsk = len(cell.uf(k, *[z3.IntVal(0)] * nd).children()) - nd - 1

        def elem(v, idx):
            if v is None:
                return cell.uf(k, *idx)
            if callable(v) and not isinstance(v, Arr):
                return num(v(*[Num(i, True) for i in idx])).real
            if isinstance(v, Arr):
                return num(v.snap()(*[Num(i, True) for i in idx])).real
            return num(arrays.conc_get(v, [Num(i, True) for i in idx])).real

        def init_elem(idx):
            i0 = cell.init
            if i0 is UNDEF or i0 is None:
                return None
            if is_num(i0):
                return None
            if callable(i0) and not isinstance(i0, Arr):
                return num(i0(*[Num(i, True) for i in idx])).real
            if isinstance(i0, Arr):
                return num(i0.snap()(*[Num(i, True) for i in idx])).real
            if isinstance(i0, _np.ndarray):
                return num(arrays.conc_get(i0, [Num(i, True) for i in idx])).real
            return None
        if isinstance(cell.init, Arr):
            cell.init = cell.init.copy()
        elif isinstance(cell.init, _np.ndarray):
            cell.init = cell.init.copy()

        def fn(app, ent):
            ch = app.children()
            t = ch[nsk]
            idx = ch[nsk + 1:]
            if ent(t == 0):
                return init_elem(idx)
            if ent(z3.And(t >= 1, t <= n)):
                r = elem(vals[-1][1], idx)
                for cond, v in reversed(vals[:-1]):
                    r = z3.If(cond, elem(v, idx), r)
                return z3.substitute(r, (k, z3.simplify(t - 1)))
            return None
        st.rec[name] = ("arr", self, fn)

    def final(self):
        if getattr(self, "skip", False):
            return tuple(self.pre[n] for n in self.names)
        n = self.count()
        for i, o in self.heap.items():
            restore(o, self.entry[i])
        for cell in self.cells.values():
            if cell.key[0] == "P":
                continue
            if cell.kind == "olist":
                restore(self.heap[cell.key[1]], self.assigned(cell))
            elif cell.key[0] == "A":
                restore(self.heap[cell.key[1]], self.inplace(cell, n))
            elif cell.key[0] == "H":
                o = self.heap[cell.key[1]]
                v = self.at(cell, n)
                if isinstance(o, (dict, list)):
                    o[cell.key[2]] = v
                else:
                    vars(o)[cell.key[2]] = v
        out = []
        for nm in self.names:
            cell = self.cells.get(("L", nm))
            v = self.at(cell, n) if cell is not None else self.pre[nm]
            if isinstance(v, list) and ("P", id(v)) in self.cells:
                v = self.grown(self.cells["P", id(v)])
            out.append(v)
        return tuple(out)

    def at(self, cell, t):
        if cell.kind == "num":
            return Num(cell.uf(t), cell.isint)
        if cell.kind == "bool":
            return Bool(cell.uf(t))
        if cell.kind == "aval":
            return self.arrval(cell, t)
        return UNDEF


class Loop(LoopBase):
    def __init__(self, key, seq, names, loc):
        super().__init__(key, names)
        self.seq = seq
        self.start(loc)

    def empty(self):
        return self.c.entailed(self.seq.n.e <= 0)

    def domain(self):
        return [self.k >= 0, self.k < self.seq.n.e]

    def count(self):
        n = self.seq.n
        if self.c.entailed(n.e >= 0):
            return n.e
        return z3.If(n.e >= 0, n.e, z3.IntVal(0))

    def item(self):
        return self.seq.get(self.kn())


class WLoop(LoopBase):
    def __init__(self, key, test, names):
        super().__init__(key, names)
        from .explore import run_local
        from .core import boolterm
        res = run_local(lambda: test())
        conc = all(isinstance(v, (bool, int)) and not isinstance(v, Sym) for _, v in res) and len(res) == 1
        self.symbolic = not conc

    def native(self, test):
        return False if self.symbolic else bool(test())

    def begin(self, loc):
        self.N = self.c.fresh("N." + self.key, z3.IntSort())
        self.c.assume(self.N >= 0)
        self.start(loc)

    def empty(self):
        return False

    def domain(self):
        return [self.k >= 0, self.k < self.N]

    def count(self):
        return self.N

    def assume_exit(self, test):
        from .explore import run_local
        from .core import boolterm
        res = run_local(lambda: boolterm(test()) if not isinstance(test(), (int,)) else z3.BoolVal(bool(test())))
        r = res[-1][1]
        for cond, v in reversed(res[:-1]):
            r = z3.If(cond, v, r)
        self.c.assume(z3.simplify(z3.Not(r)))
