"""Transcendental functions: uninterpreted, constrained by axiom instances.

Every axiom instance added here is true of the real functions; an obligation
discharged with them holds for the real exp/log/sqrt/pow.
"""
from fractions import Fraction

import z3

from .core import Bool, Num, Unsupported, ctx, num, rv

R = z3.RealSort()
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SQRT = z3.Function("sqrt", R, R)
POW = z3.Function("pow", R, R, R)


def _canon(x):
    """argument in ring normal form, so equal arguments give equal terms"""
    from . import ring
    return ring.canonical(x.real)


def _primes(n):
    out, p = [], 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1
    return out + ([n] if n > 1 else [])


def _peel(x):
    """x = rest * product of positive factors^exponents: ([(real term, exponent)], rest or None), constants as primes"""
    from . import ring
    from .core import rv
    t = x.real
    if ring.has_ite(t):
        return None
    n = ring.Norm()
    try:
        r = n.norm(t)
    except (ring.TooBig, Unsupported):
        return None
    if not r.n:
        return None
    c = ctx()
    facs, rest = [], []

    def positive(q):
        return z3.is_rational_value(q) or c.entailed(q > 0)

    def put(q, e):
        (facs if positive(q) else rest).append((q, e))
    k, s = ring.pkey(r.n)
    if len(r.n) == 1:
        for a, e in k[0][0]:
            put(n.atoms.terms[a], e)
    else:
        q = n.term_poly(n.poly_of_key(k))
        if not positive(q) and positive(-q):
            q, s = -q, -s
        put(q, 1)
    for k2, e in r.d.items():
        if len(k2) == 1:
            s = s / k2[0][1] ** e
            for a, e2 in k2[0][0]:
                put(n.atoms.terms[a], -e * e2)
            continue
        q = n.term_poly(n.poly_of_key(k2))
        if not positive(q) and positive(-q):
            q, s = -q, s * (-1) ** e
        put(q, -e)
    sign = 1 if s > 0 else -1
    s = abs(s)
    for p in _primes(s.numerator):
        facs.append((rv(Fraction(p)), 1))
    for p in _primes(s.denominator):
        facs.append((rv(Fraction(p)), -1))
    if not rest:
        return (facs, None) if sign == 1 else None
    u, d = rv(Fraction(sign)), []
    for q, e in rest:
        for _ in range(abs(e)):
            if e > 0:
                u = u * q
            else:
                d.append(q)
    for q in d:
        u = u / q
    return facs, u


def exp(x):
    x = num(x)
    if x.c == 0:
        return Num.const(Fraction(1))
    a = _canon(x)
    if z3.is_rational_value(a) and a.as_fraction() == 0:
        return Num.const(Fraction(1))
    c = ctx()
    seen = c.__dict__.setdefault("expseen", {})
    if a.get_id() not in seen:
        b = _canon(-x)
        if b.get_id() in seen:
            return 1 / seen[b.get_id()][1]
    t = EXP(a)
    seen[a.get_id()] = (a, Num(t, False))
    c.fact(t > 0)
    c.fact(t >= 1 + a)
    c.fact(z3.Implies(a <= 0, t <= 1))
    c.fact(z3.Implies(a < 0, t < 1))
    c.fact(z3.Implies(a >= 0, t >= 1))
    return Num(t, False)


def log(x):
    x = num(x)
    if x.c == 1:
        return Num.const(Fraction(0))
    c = ctx()
    c.store.note_pos(x.real, "log")
    if z3.is_app(x.e) and x.e.decl().kind() == z3.Z3_OP_ITE and not c.binder:
        from .arrays import ite
        return ite(Bool(x.e.arg(0)), _log(Num(x.e.arg(1), x.isint)), _log(Num(x.e.arg(2), x.isint)))
    return _log(x)


def _log(x):
    """log of a product with positive factors as the sum of their logs"""
    p = _peel(x)
    if p is None:
        return _log1(x)
    facs, rest = p
    r = Num.const(Fraction(0)) if rest is None else _log1(Num(rest, False))
    for q, e in facs:
        r = r + Num.const(Fraction(e)) * _log1(Num(q, False) if not z3.is_rational_value(q) else Num.const(q.as_fraction()))
    return r


def _log1(x):
    c = ctx()
    a = _canon(x)
    if z3.is_rational_value(a) and a.as_fraction() == 1:
        return Num.const(Fraction(0))
    t = LOG(a)
    c.fact(z3.Implies(a > 1, t > 0))
    c.fact(z3.Implies(a == 1, t == 0))
    c.fact(z3.Implies(z3.And(a > 0, a < 1), t < 0))
    c.fact(z3.Implies(a > 0, t <= a - 1))
    return Num(t, False)


def sqrt(x):
    x = num(x)
    if x.c is not None and x.c >= 0:
        import math
        p, q = math.isqrt(x.c.numerator), math.isqrt(x.c.denominator)
        if p * p == x.c.numerator and q * q == x.c.denominator:
            return Num.const(Fraction(p, q))
    c = ctx()
    c.store.note_nonneg(x.real, "sqrt")
    a = _canon(x)
    t = SQRT(a)
    c.fact(t >= 0)
    c.fact(z3.Implies(a > 0, t > 0))
    c.fact(z3.Implies(a >= 0, t * t == a))
    return Num(t, False)


def power(x, y):
    x, y = num(x), num(y)
    if y.c == 0 or x.c == 1:
        return Num.const(Fraction(1))
    c = ctx()
    c.store.note_pos(x.real, "pow")
    p = _peel(x)
    if p is None or p[1] is not None and not p[0] or p[1] is None and len(p[0]) == 1 and p[0][0][1] == 1:
        return _pow1(x, y)
    facs, rest = p
    r = Num.const(Fraction(1)) if rest is None else _pow1(Num(rest, False), y)
    for q, e in facs:
        v = _pow1(Num(q, False) if not z3.is_rational_value(q) else Num.const(q.as_fraction()), y)
        r = r * v ** Num.const(Fraction(e), True)
    return r


def _pow1(x, y):
    c = ctx()
    a, b = _canon(x), _canon(y)
    t = POW(a, b)
    c.fact(z3.Implies(a > 0, t > 0))
    c.fact(z3.Implies(z3.And(a == 0, b > 0), t == 0))
    c.fact(z3.Implies(a == 1, t == 1))
    c.fact(z3.Implies(z3.And(a > 1, b > 0), t > 1))
    c.fact(z3.Implies(z3.And(a > 0, a < 1, b > 0), t < 1))
    return Num(t, False)
