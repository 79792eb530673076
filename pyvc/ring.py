"""Rational-function normal form of z3 real terms (no if-then-else inside).

A term is turned into num/den with num a sparse polynomial with rational
coefficients over atoms (maximal non-arithmetic subterms) and den a multiset of
polynomial factors.  t == 0 is established when num is the zero polynomial and
every factor of den is non-zero (the caller has to discharge that).
"""
from fractions import Fraction

import z3

from .core import Unsupported, is_const, rv

_LIMIT = 200000


class TooBig(Exception):
    pass


class Atoms:
    """atom numbering; keyed by z3 ast (structural)"""

    def __init__(self):
        self.ix = {}
        self.terms = []
        self.info = []   # ('sqrt', argpoly) or None

    def get(self, t):
        k = t.get_id()
        i = self.ix.get(k)
        if i is None:
            i = len(self.terms)
            self.ix[k] = i
            self.terms.append(t)
        return i


def padd(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sb * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > _LIMIT:
        raise TooBig()
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pkey(p):
    """normalise a polynomial up to scalar; returns (key, scale) with p = scale*key"""
    items = sorted(p.items())
    s = items[0][1]
    return tuple((m, c / s) for m, c in items), s


ONE = {(): Fraction(1)}


class RF:
    """num / prod(factor^e)"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


class Norm:
    def __init__(self):
        self.atoms = Atoms()
        self.memo = {}
        self.keep = []
        self.dens = {}     # factor key -> poly

    def poly_of_key(self, k):
        return {m: c for m, c in k}

    def expand(self, key, e):
        r = ONE
        p = self.poly_of_key(key)
        for _ in range(e):
            r = pmul(r, p)
        return r

    def add(self, a, b, sb=1):
        if a.d == b.d:
            return RF(padd(a.n, b.n, sb), a.d)
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = max(d.get(k, 0), e)
        na, nb = a.n, b.n
        for k, e in d.items():
            ea, eb = e - a.d.get(k, 0), e - b.d.get(k, 0)
            if ea:
                na = pmul(na, self.expand(k, ea))
            if eb:
                nb = pmul(nb, self.expand(k, eb))
        return RF(padd(na, nb, sb), d)

    def mul(self, a, b):
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
        an, bn = a.n, b.n
        # cancel numerators that are exactly a denominator factor
        if d and len(an) > 0 and len(bn) > 0:
            an, d = self.cancel(an, d)
            bn, d = self.cancel(bn, d)
        r = RF(self.reduce(pmul(an, bn)), d)
        return r

    def cancel(self, p, d):
        if not d or not p:
            return p, d
        k, s = pkey(p)
        if k in d:
            d = dict(d)
            d[k] -= 1
            if not d[k]:
                del d[k]
            return {(): s}, d
        return p, d

    def reduce(self, p):
        """sqrt(a)^2 -> a"""
        if not any(len(m) and self._hassq(m) for m in p):
            return p
        out = {}
        for m, c in p.items():
            hit = None
            for a, e in m:
                if e >= 2 and a in self.sq:
                    hit = (a, e)
                    break
            if hit is None:
                out = padd(out, {m: c})
                continue
            a, e = hit
            rest = tuple((x, y) for x, y in m if x != a)
            if e % 2:
                rest = mmul(rest, ((a, 1),))
            q = {rest: c}
            for _ in range(e // 2):
                q = pmul(q, self.sq[a])
            out = padd(out, self.reduce(q))
        return out

    def _hassq(self, m):
        return any(e >= 2 and a in self.sq for a, e in m)

    sq = {}

    def norm(self, t):
        self.sq = self.__dict__.setdefault("sq", {})
        return self._norm(t)

    def _norm(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        r = self._norm0(t)
        if len(r.n) > _LIMIT:
            raise TooBig()
        self.memo[k] = r
        self.keep.append(t)
        return r

    def _norm0(self, t):
        if is_const(t):
            c = Fraction(str(t)) if z3.is_int_value(t) else t.as_fraction()
            return RF({(): c} if c else {})
        kind = t.decl().kind()
        if kind == z3.Z3_OP_ADD:
            r = self._norm(t.arg(0))
            for c in t.children()[1:]:
                r = self.add(r, self._norm(c))
            return r
        if kind == z3.Z3_OP_SUB:
            r = self._norm(t.arg(0))
            for c in t.children()[1:]:
                r = self.add(r, self._norm(c), -1)
            return r
        if kind == z3.Z3_OP_UMINUS:
            a = self._norm(t.arg(0))
            return RF({m: -c for m, c in a.n.items()}, a.d)
        if kind == z3.Z3_OP_MUL:
            r = self._norm(t.arg(0))
            for c in t.children()[1:]:
                r = self.mul(r, self._norm(c))
            return r
        if kind == z3.Z3_OP_DIV:
            a, b = self._norm(t.arg(0)), self._norm(t.arg(1))
            if not b.n:
                raise Unsupported("division by zero term")
            # a / (bn/bd) = a*bd / bn
            num = a
            for f, e in b.d.items():
                num = self.mul(num, RF(self.expand(f, e)))
            if len(b.n) == 1 and () in b.n:
                c = b.n[()]
                return RF({m: v / c for m, v in num.n.items()}, num.d)
            fk, s = pkey(b.n)
            n = num.n
            d = dict(num.d)
            d[fk] = d.get(fk, 0) + 1
            n, d = self.cancel(n, d)
            return RF({m: v / s for m, v in n.items()}, d)
        if kind == z3.Z3_OP_TO_REAL:
            inner = t.arg(0)
            if inner.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or is_const(inner):
                from .core import to_real
                return self._norm(to_real(inner))
            i = self.atoms.get(canon_atom(t))
            return RF({((i, 1),): Fraction(1)})
        if kind == z3.Z3_OP_ITE:
            if not self.__dict__.get("opaque"):
                raise Unsupported("ite in ring term")
            i = self.atoms.get(canon_ite(t))
            return RF({((i, 1),): Fraction(1)})
        t = canon_atom(t)
        i = self.atoms.get(t)
        if t.decl().name() == "sqrt" and i not in self.sq:
            a = self._norm(t.arg(0))
            if not a.d:
                self.sq[i] = a.n
        return RF({((i, 1),): Fraction(1)})

    # -- back to z3
    def term_poly(self, p):
        if not p:
            return z3.RealVal(0)
        parts = []
        for m, c in sorted(p.items()):
            fs = []
            if c != 1 or not m:
                fs.append(rv(c))
            for a, e in m:
                fs += [self.atoms.terms[a]] * e
            parts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return parts[0] if len(parts) == 1 else z3.Sum(*parts)


class Split:
    """t as a polynomial in the atoms that occur in no divisor, with rational functions of the other atoms as coefficients:
    every coefficient is brought to normal form on its own, so that no common denominator of the whole term is formed"""

    def __init__(self, t):
        self.n = Norm()
        self.n.sq = self.n.__dict__.setdefault("sq", {})
        self.memo = {}
        self.keep = []
        self.inner = set()
        self.hasdiv = False
        self._divs(t, set())

    def _divs(self, t, seen):
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_DIV and not is_const(x.arg(1)):
                self.hasdiv = True
                self._mark(x.arg(1))
            if x.decl().kind() in _ARITH:
                todo.extend(x.children())

    def _mark(self, t):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().kind() in _ARITH and z3.is_app(x) and x.num_args():
                todo.extend(x.children())
            elif not is_const(x):
                self.inner.add(canon_atom(x).get_id())
                self.keep.append(x)

    def go(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.go0(t)
            if sum(len(c.n) for c in r.values()) > _LIMIT:
                raise TooBig()
            self.memo[k] = r
            self.keep.append(t)
        return r

    def _add(self, a, b, sb=1):
        r = dict(a)
        for m, c in b.items():
            v = self.n.add(r[m], c, sb) if m in r else (c if sb == 1 else RF({q: -x for q, x in c.n.items()}, c.d))
            if v.n:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def _mul(self, a, b):
        if len(a) * len(b) > _LIMIT:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                c = self.n.mul(c1, c2)
                v = self.n.add(r[m], c) if m in r else c
                if v.n:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def go0(self, t):
        kind = t.decl().kind()
        if kind == z3.Z3_OP_ADD or kind == z3.Z3_OP_SUB:
            r = self.go(t.arg(0))
            for c in t.children()[1:]:
                r = self._add(r, self.go(c), -1 if kind == z3.Z3_OP_SUB else 1)
            return r
        if kind == z3.Z3_OP_UMINUS:
            return self._add({}, self.go(t.arg(0)), -1)
        if kind == z3.Z3_OP_MUL:
            r = self.go(t.arg(0))
            for c in t.children()[1:]:
                r = self._mul(r, self.go(c))
            return r
        if kind == z3.Z3_OP_DIV:
            a = self.go(t.arg(0))
            one = self.n.norm(z3.RealVal(1) / t.arg(1))
            return self._mul(a, {(): one})
        if kind == z3.Z3_OP_ITE:
            raise Unsupported("ite")
        if kind == z3.Z3_OP_TO_REAL and t.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            from .core import to_real
            return self.go(to_real(t.arg(0)))
        if is_const(t):
            c = self.n.norm(t)
            return {(): c} if c.n else {}
        x = canon_atom(t)
        if x.get_id() in self.inner or x.decl().name() == "sqrt":
            return {(): self.n.norm(t)}
        self.keep.append(x)
        return {((self.n.atoms.get(x), 1),): RF({(): Fraction(1)})}


_ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV)


def split_zero(t):
    """-> list of divisors under whose non-vanishing t == 0 holds, or None (not shown)"""
    s = Split(t)
    if not s.hasdiv:
        return None
    r = s.go(t)
    if r:
        return None
    # every divisor met on the way has to be non-zero
    fs = {}
    for c in list(s.memo.values()):
        for x in c.values():
            for k in x.d:
                fs[k] = 1
    for x in s.n.memo.values():
        for k in x.d:
            fs[k] = 1
    return [s.n.term_poly(s.n.poly_of_key(k)) for k in fs]


_canon_memo = {}


def canon_atom(t):
    """an uninterpreted application with its arguments in normal form"""
    if not (z3.is_app(t) and t.num_args()):
        return t
    k = t.get_id()
    r = _canon_memo.get(k)
    if r is not None:
        return r[1]
    ch = []
    for a in t.children():
        if a.sort().kind() == z3.Z3_INT_SORT:
            ch.append(canon_int(a))
        elif a.sort().kind() == z3.Z3_REAL_SORT:
            ch.append(canonical(a))
        else:
            ch.append(a)
    out = t if all(p.eq(q) for p, q in zip(ch, t.children())) else _rebuild(t, ch)
    if len(_canon_memo) > 200000:
        _canon_memo.clear()
    _canon_memo[k] = (t, out)
    return out


def canon_ite(t):
    """if-then-else with condition and branches in normal form (kept opaque)"""
    k = ("ite", t.get_id())
    r = _canon_memo.get(k)
    if r is not None:
        return r[1]

    def cn(x):
        n = Norm()
        n.opaque = True
        return canonical_with(n, x)

    def cc(q):
        kd = q.decl().kind()
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            return _rebuild(q, [cc(x) for x in q.children()])
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and q.arg(0).sort().kind() == z3.Z3_REAL_SORT:
            d = cn(q.arg(0) - q.arg(1))
            z = z3.RealVal(0)
            return {z3.Z3_OP_LE: lambda: d <= z, z3.Z3_OP_GE: lambda: d >= z, z3.Z3_OP_LT: lambda: d < z, z3.Z3_OP_GT: lambda: d > z}[kd]()
        return q
    try:
        out = z3.If(cc(t.arg(0)), cn(t.arg(1)), cn(t.arg(2))) if t.sort().kind() == z3.Z3_REAL_SORT else t
    except (TooBig, Unsupported):
        out = t
    if len(_canon_memo) > 200000:
        _canon_memo.clear()
    _canon_memo[k] = (t, out)
    return out


def canon_int(a):
    if z3.is_const(a):
        return a
    return z3.simplify(a, som=True)



def canonical(t):
    """deterministic representative; atoms ordered by their printed form"""
    if z3.is_rational_value(t):
        return t
    n = Norm()
    if has_ite(t):
        n.opaque = True
    return canonical_with(n, t)


def canonical_with(n, t):
    if z3.is_rational_value(t):
        return t
    try:
        r = n.norm(t)
    except (TooBig, Unsupported):
        return z3.simplify(t)
    names = [str(a) if len(str(a)) < 4000 else str(a.hash()) for a in n.atoms.terms]
    order = sorted(range(len(names)), key=lambda i: names[i])
    rank = {o: i for i, o in enumerate(order)}

    def ren(p):
        return {tuple(sorted((rank[a], e) for a, e in m)): c for m, c in p.items()}
    m2 = Norm()
    m2.atoms.terms = [n.atoms.terms[o] for o in order]
    num = ren(r.n)
    if not num:
        return z3.RealVal(0)
    dens = []
    for k, e in r.d.items():
        dk, s = pkey(ren(n.poly_of_key(k)))
        num = {m: c / s ** e for m, c in num.items()}
        dens.append((dk, e))
    top = m2.term_poly(num)
    if not dens:
        return top
    dens.sort(key=str)
    fs = []
    for k, e in dens:
        fs += [m2.term_poly({m: c for m, c in k})] * e
    bot = fs[0] if len(fs) == 1 else z3.Product(*fs)
    return top / bot


def has_ite(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                return True
            todo.extend(x.children())
    return False


def find_ite(t):
    """an ite whose condition contains no ite (innermost first)"""
    todo, seen = [t], set()
    best = None
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and not has_ite(x.arg(0)):
                best = x.arg(0)
                return best
            todo.extend(x.children())
    return best


def replace_cond(t, cond, val):
    """substitute a condition by a truth value and drop decided ites"""
    b = z3.BoolVal(val)
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if x.eq(cond):
            r = b
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            kind = x.decl().kind()
            if kind == z3.Z3_OP_ITE:
                if z3.is_true(ch[0]):
                    r = ch[1]
                elif z3.is_false(ch[0]):
                    r = ch[2]
                else:
                    r = z3.If(*ch)
            elif kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                r = z3.simplify(_rebuild(x, ch))
            else:
                r = x if all(a.eq(b_) for a, b_ in zip(ch, x.children())) else _rebuild(x, ch)
        else:
            r = x
        memo[k] = r
        return r
    return go(t)


def _rebuild(x, ch):
    kind = x.decl().kind()
    if kind == z3.Z3_OP_ADD:
        return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    if kind == z3.Z3_OP_MUL:
        return z3.Product(*ch) if len(ch) > 1 else ch[0]
    if kind == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if kind == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kind == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if kind == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return x.decl()(*ch)
