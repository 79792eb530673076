"""Discharging obligations: ring normal form, unfolding of loop states, sums, SMT."""
import subprocess
import tempfile
import time

import z3

from . import core, ring
from .core import Ctx, Unsupported, ctx, num
from .seq import is_sum, sum_body, mksum

Z3_TIMEOUT = 8000
DEBUG = int(__import__('os').environ.get('PYVC_DEBUG', '0'))


class Result:
    def __init__(self, status, backend, t, model=None, detail=""):
        self.status, self.backend, self.time, self.model, self.detail = status, backend, t, model, detail


def apps(t, pred):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if pred(x):
                out.append(x)
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return out


def relevant_facts(c, goal, pc):
    """facts whose every uninterpreted application argument occurs in goal or pc (cheap cone)"""
    return c.facts


def sat_pc(c, extra):
    s = z3.Solver()
    s.set("timeout", core.tmo(1500))
    s.add(*c.pc)
    s.add(*[f for f in c.facts if not _nl(f)])
    s.add(*extra)
    return s.check()


def _nl(f):
    from .core import has_nonlinear
    return has_nonlinear(f)


class Prover:
    def __init__(self, c):
        self.c = c
        self.t0 = time.time()
        self.budget = 50.0 * core.SLOW

    # ------------------------------------------------------------ entry
    def prove(self, goal):
        t0 = time.time()
        self.t0 = t0
        goal = z3.simplify(goal) if not _iseq(goal) else goal
        if z3.is_true(goal):
            return Result("proved", "simplify", time.time() - t0)
        if z3.is_and(goal):
            rs = [self.prove(g) for g in goal.children()]
            bad = [r for r in rs if r.status != "proved"]
            if not bad:
                return Result("proved", "+".join(sorted({r.backend for r in rs})), time.time() - t0)
            return bad[0]
        if z3.is_implies(goal):
            sub = Sub(self.c, [goal.arg(0)])
            p = Prover(sub)
            return p.prove(goal.arg(1))
        if _iseq(goal):
            try:
                r = self.prove_eq(goal.arg(0), goal.arg(1), [])
                if r:
                    return Result("proved", r, time.time() - t0)
            except (ring.TooBig, Unsupported) as e:
                pass
        r = self.smt(goal)
        if r.status != "proved":
            g2 = self.unfold(goal, [])
            if not g2.eq(goal):
                r2 = self.smt(g2)
                if r2.status == "proved":
                    r2.backend += "+unfold"
                    return r2
            defs = []
            for _ in range(2):
                new = self.definitions([goal] + list(self.c.pc) + defs, defs)
                if not new:
                    break
                defs += new
                r2 = self.smt(goal, defs)
                if r2.status == "proved":
                    r2.backend += "+definitions"
                    return r2
        return r

    def definitions(self, terms, have):
        """the recurrence equations of the loop values that occur in the terms"""
        rec = self.c.store.rec
        done = {h.arg(0).get_id() for h in have}
        out = []
        for t in terms:
            if z3.is_quantifier(t):
                continue
            for x in apps(t, lambda x: x.decl().name() in rec):
                if x.get_id() in done or z3.is_var(x):
                    continue
                done.add(x.get_id())
                r = rec[x.decl().name()][2](x, lambda q: self.entailed(q, []))
                if r is not None:
                    out.append(x == r)
        return out

    # ------------------------------------------------------------ equalities
    def prove_eq(self, a, b, extra, depth=0):
        """-> backend name or None"""
        d = a - b if a.sort() == z3.RealSort() else z3.ToReal(a - b)
        return self.zero(d, extra, depth)

    def entailed(self, cond, extra):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        from .core import real_free
        sols = [self.c._isol()]
        if not real_free(cond):
            sols.append(self.c._sol())
        for s in sols:
            s.push()
            try:
                s.add(*[e for e in extra])
                s.add(z3.Not(cond))
                if s.check() == z3.unsat:
                    return True
            finally:
                s.pop()
        return False

    def infeasible(self, extra):
        s = self.c._sol()
        s.push()
        try:
            s.add(*extra)
            return s.check() == z3.unsat
        finally:
            s.pop()

    def zero(self, t, extra, depth=0, unf=0):
        if time.time() - self.t0 > self.budget or depth > 24:
            return None
        # if-then-else: decided conditions first, then equal conditions, then case split
        cond = ring.find_ite(t)
        if cond is not None:
            n = ring.Norm()
            n.opaque = True
            try:
                r = n.norm(t)
                if not r.n and all(self.nonzero(n.term_poly(n.poly_of_key(k)), extra) for k in r.d):
                    return "ring"
            except (ring.TooBig, Unsupported):
                pass
            conds = all_conds(t)
            for cond in conds:
                cs = z3.simplify(cond)
                if z3.is_true(cs) or z3.is_false(cs):
                    return self.zero(ring.replace_cond(t, cond, z3.is_true(cs)), extra, depth, unf)
                if self.entailed(cond, extra):
                    return self.zero(ring.replace_cond(t, cond, True), extra, depth, unf)
                if self.entailed(z3.Not(cond), extra):
                    return self.zero(ring.replace_cond(t, cond, False), extra, depth, unf)
            u = self.unify_conds(t, conds, extra, depth)
            if u is not None:
                return self.zero(u, extra, depth, unf)
            if depth > 14:
                return None
            # integer conditions first: they decide indices
            conds.sort(key=lambda q: (any(ch.sort().kind() == z3.Z3_REAL_SORT for ch in _cmp_args(q)), len(str(q)[:400])))
            cond = conds[0]
            r1 = self.zero(ring.replace_cond(t, cond, True), extra + [cond], depth + 1, unf)
            if not r1:
                return None
            r2 = self.zero(ring.replace_cond(t, cond, False), extra + [z3.Not(cond)], depth + 1, unf)
            return r1 if r2 else None
        try:
            ds = ring.split_zero(t)
        except (ring.TooBig, Unsupported):
            ds = None
        if ds is not None and all(self.nonzero(d, extra) for d in ds):
            return "ring"
        n = ring.Norm()
        r = n.norm(t)
        for k in r.d:
            if not self.nonzero(n.term_poly(n.poly_of_key(k)), extra):
                return None
        if not r.n:
            return "ring"
        t = n.term_poly(r.n)
        if DEBUG:
            print("  " * (depth + unf), f"zero depth={depth} unf={unf} extra={str(extra)[:DEBUG]}\n", "  " * (depth + unf), str(t)[:DEBUG])
        # unify atoms with provably equal arguments
        u = self.unify(t, n, extra)
        if u is not None and not u.eq(t):
            rr = self.zero(u, extra, depth + 1, unf)
            if rr:
                return rr
        u = self.unify_fun(n, r, t, extra, depth)
        if u is not None and not u.eq(t):
            return self.zero(u, extra, depth + 1, unf)
        rs = self.sums(n, r, extra, depth, unf)
        if rs:
            return rs
        if unf < 8:
            used = {a for m in r.n for a, _ in m}
            u = self.unfold(t, extra, [n.atoms.terms[a] for a in used])
            if u.eq(t):
                u = self.unfold(t, extra)
            if not u.eq(t):
                rr = self.zero(u, extra, depth, unf + 1)
                if rr:
                    return rr + ("" if "unfold" in rr else "+unfold")
        # linear combination of known equalities in the path condition
        return self.with_hyps(t, extra, depth, unf)

    def quick(self, budget):
        p = Prover(self.c)
        p.t0, p.budget = time.time(), min(budget, max(0.1, self.budget - (time.time() - self.t0)))
        return p

    def unify_conds(self, t, conds, extra, depth):
        """two real comparisons with provably equal difference are one condition"""
        forms = []
        for q in conds:
            f = _cmp_form(q)
            if f is not None:
                forms.append((q, f))
        for i in range(len(forms)):
            for j in range(i):
                (q1, (k1, d1)), (q2, (k2, d2)) = forms[i], forms[j]
                neg = None
                if k1 == k2:
                    neg = False
                if neg is None:
                    continue
                key = (d1.get_id(), d2.get_id(), len(extra))
                memo = self.c.store.__dict__.setdefault("condmemo", {})
                if key in memo and memo[key][0] == str(extra)[:2000]:
                    ok = memo[key][1]
                else:
                    ok = bool(self.quick(8 * core.SLOW).zero(d1 - d2, extra, depth + 1, 0))
                    memo[key] = (str(extra)[:2000], ok, d1, d2)
                if ok:
                    return z3.substitute(t, (q1, q2)) if not q1.eq(q2) else None
        return None

    def unify_fun(self, n, r, t, extra, depth):
        """log/exp/sqrt/pow atoms with provably equal real arguments"""
        used = sorted({a for m in r.n for a, _ in m})
        by = {}
        for a in used:
            x = n.atoms.terms[a]
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(
                    q.sort().kind() == z3.Z3_REAL_SORT for q in x.children()):
                by.setdefault(x.decl().name(), []).append(x)
        for nm, xs in by.items():
            if len(xs) > 8:
                continue
            for i in range(len(xs)):
                for j in range(i):
                    if all(self.quick(15 * core.SLOW).zero(p - q, extra, depth + 1, 0) for p, q in zip(xs[i].children(), xs[j].children())):
                        return z3.substitute(t, (xs[i], xs[j]))
        return None

    def zero_pure(self, t, depth=0):
        """polynomial identity with case split on every if-then-else, no hypotheses"""
        cond = ring.find_ite(t)
        if cond is not None:
            if depth > 8:
                return False
            return (self.zero_pure(ring.replace_cond(t, cond, True), depth + 1)
                    and self.zero_pure(ring.replace_cond(t, cond, False), depth + 1))
        n = ring.Norm()
        return not n.norm(t).n

    def positive(self, t):
        """sum of products of constants of one sign and quantities the path condition gives as positive"""
        memo = self.c.__dict__.setdefault("posmemo", {})
        n = len(self.c.pc)
        if memo.get("n") != n:
            pos = set()
            for p in self.c.pc:
                if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_GT and z3.is_rational_value(p.arg(1)) and p.arg(1).as_fraction() >= 0:
                    pos.add(p.arg(0).get_id())
            memo.clear()
            memo.update(n=n, pos=pos)
        signs = set()
        parts = t.children() if t.decl().kind() == z3.Z3_OP_ADD else [t]
        for q in parts:
            s = 1
            for f in (q.children() if q.decl().kind() == z3.Z3_OP_MUL else [q]):
                if z3.is_rational_value(f):
                    s *= 1 if f.as_fraction() > 0 else (-1 if f.as_fraction() < 0 else 0)
                elif f.get_id() not in memo["pos"]:
                    return False
            signs.add(s)
        return signs in ({1}, {-1})

    def nonzero(self, t, extra):
        t0 = z3.simplify(t)
        if z3.is_rational_value(t0):
            return t0.as_fraction() != 0
        if self.positive(t):
            return True
        s = z3.Solver()
        s.set("timeout", core.tmo(3000))
        s.add(*self.c.pc, *extra, *self.c.facts)
        s.add(t == 0)
        if s.check() == z3.unsat:
            return True
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", core.tmo(3000))
        s.add(*[purify(p) for p in self.c.pc + extra + self.c.facts if not z3.is_quantifier(p)])
        s.add(purify(t == 0))
        return s.check() == z3.unsat

    def unify(self, t, n, extra):
        """merge uninterpreted applications whose integer arguments are provably equal"""
        byname = {}
        for x in apps(t, lambda x: x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0):
            byname.setdefault(x.decl().name(), []).append(x)
        subs = []
        for nm, xs in byname.items():
            if len(xs) < 2 or len(xs) > 12:
                continue
            for i in range(len(xs)):
                for j in range(i):
                    if xs[i].eq(xs[j]):
                        continue
                    eqs = [p == q for p, q in zip(xs[i].children(), xs[j].children()) if not p.eq(q)]
                    if all(e.arg(0).sort() == z3.IntSort() for e in eqs) and self.entailed(z3.And(*eqs), extra):
                        subs.append((xs[i], xs[j]))
                        break
                if len(subs) > 20:
                    break
        if not subs:
            return None
        return z3.substitute(t, *subs)

    def unfold(self, t, extra, among=None):
        """rewrite loop-state applications by their defining equations where the index is decided; the latest ones first"""
        c = self.c
        rec = c.store.rec
        cand = among if among is not None else apps(t, lambda x: x.decl().name() in rec)
        cand = [x for x in cand if z3.is_app(x) and x.decl().name() in rec]
        if len(cand) > 1:
            def key(x):
                kind = rec[x.decl().name()][0]
                i = x.children()[-1] if kind != "arr" else None
                if i is None:
                    return None
                return (i if kind == "seq" else i - 1), (0 if kind == "seq" else 1), rec[x.decl().name()][1]
            keys = [key(x) for x in cand]
            keep = []
            for i, x in enumerate(cand):
                if rec[x.decl().name()][0] == "acc" or keys[i] is None:
                    keep.append(x)
                    continue
                later = False
                for j, y in enumerate(cand):
                    if i == j or keys[j] is None or keys[j][2] is not keys[i][2] or rec[y.decl().name()][0] == "acc":
                        continue
                    d = z3.simplify(keys[j][0] - keys[i][0], som=True)
                    if z3.is_int_value(d) and (d.as_long() > 0 or d.as_long() == 0 and keys[j][1] > keys[i][1]):
                        later = True
                        break
                if not later:
                    keep.append(x)
            cand = keep
        subs = []
        for x in cand:
            kind, loop, fn = rec[x.decl().name()]
            r = fn(x, lambda cond: self.entailed(cond, extra))
            if r is not None and not r.eq(x):
                subs.append((x, r))
        if not subs:
            return t
        return z3.substitute(t, *subs)

    # ------------------------------------------------------------ sums
    def sums(self, n, r, extra, depth, unf):
        """num(r) = sum_i c_i * SUM_i(lo_i,hi_i) + rest, with c_i free of sums: combine"""
        if depth > 10:
            return None
        at = n.atoms.terms
        sidx = {i for i, a in enumerate(at) if is_sum(a)}
        if not sidx:
            return None
        groups = {}
        rest = {}
        for m, cf in r.n.items():
            hit = [(a, e) for a, e in m if a in sidx]
            if not hit:
                rest[m] = cf
                continue
            if len(hit) > 1 or hit[0][1] != 1:
                return self.unify_sums(n, r, [at[q] for q in sorted(sidx)], extra, depth, unf)
            a = hit[0][0]
            m2 = tuple((x, e) for x, e in m if x != a)
            groups.setdefault(a, {})[m2] = cf
        # merge all onto a common domain where provable
        gs = list(groups.items())
        if len(gs) == 1 and rest:
            return None
        k0, s0 = ring.pkey(gs[0][1])
        items = []
        for a, p in gs:            # common polynomial factor: divide it out
            k1, s1 = ring.pkey(p)
            if k1 != k0:
                items = None
                break
            items.append((at[a], ring.rv(s1 / s0)))
        if items is None:
            items = [(at[a], n.term_poly(p)) for a, p in groups.items()]
        elif rest:
            fac = n.term_poly(gs[0][1])
            if self.sum_group(items, z3.RealVal(0), extra, depth, unf):
                return self.zero(n.term_poly(rest), extra, depth + 1, unf)
            items = [(t, c * fac) for t, c in items]
        return self.sum_group(items, n.term_poly(rest), extra, depth, unf)

    def unify_sums(self, n, r, sums, extra, depth, unf):
        """polynomial in several sums: replace sums that are provably equal"""
        used = {a for m in r.n for a, _ in m}
        sums = [x for x in sums if n.atoms.ix[x.get_id()] in used]
        subs, reps = [], []
        for x in sums:
            for y in reps:
                if self.quick(8 * core.SLOW).sum_group([(x, z3.RealVal(1)), (y, z3.RealVal(-1))], z3.RealVal(0), extra, depth + 1, 0):
                    subs.append((x, y))
                    break
            else:
                reps.append(x)
        if not subs:
            return None
        return self.zero(z3.substitute(n.term_poly(r.n), *subs), extra, depth + 1, unf)

    def sum_group(self, items, resid, extra, depth, unf):
        """sum_i coef_i * SUM_i + resid == 0: align the index ranges, compare the bodies, add the peeled end terms"""
        import itertools
        if time.time() - self.t0 > self.budget:
            return None
        J = z3.Int(f"K!{depth}")
        self.c.store.index_vars.add(J.decl().name())
        a0 = items[0][0]
        la, ha = a0.arg(0), a0.arg(1)
        options = []
        for app, _ in items[1:]:
            lb, hb = app.arg(0), app.arg(1)
            opts = []

            def add(s, x, y, rev=False):
                if x is not None and y is not None and not any(o[1] == x and o[2] == y and o[3] == rev and o[0].eq(s) for o in opts):
                    opts.append((s, x, y, rev))
            add(z3.IntVal(0), self.delta(lb, la, extra), self.delta(hb, ha, extra))
            s = ring.canon_int(lb - la)
            add(s, 0, self.delta(hb - lb, ha - la, extra))
            s = ring.canon_int(hb - ha)
            dl = self.delta(hb - lb, ha - la, extra)
            add(s, None if dl is None else -dl, 0)
            if dl == 0:
                add(z3.IntVal(0), 0, 0, True)
            if not opts:
                return None
            options.append(opts)
        for combo in itertools.islice(itertools.product(*options), 24):
            if time.time() - self.t0 > self.budget:
                return None
            x = max([0] + [o[1] for o in combo])
            y = min([0] + [o[2] for o in combo])
            L, H = la + x, ha + y
            if (x or y or any(o[1] or o[2] for o in combo)) and not self.entailed(H >= L, extra):
                continue
            body = None
            res = resid
            for (app, coef), (s, xb, yb, rev) in zip(items, [(z3.IntVal(0), 0, 0, False)] + list(combo)):
                if rev:
                    def at(j, app=app):
                        return sum_body(app, ring.canon_int(app.arg(0) + ha - 1 - j))
                else:
                    def at(j, app=app, s=s):
                        return sum_body(app, ring.canon_int(j + s))
                t = coef * at(J)
                body = t if body is None else body + t
                for k in range(x - xb):
                    res = res + coef * at(la + xb + k)
                for k in range(yb - y):
                    res = res + coef * at(ha + y + k)
            ext2 = extra + [J >= L, J < H]
            if not self.infeasible(ext2) and not self.zero(body, ext2, depth + 1, 0):
                continue
            if self.zero(res, extra, depth + 1, unf):
                return "ring+sum"
        return None

    def delta(self, a, b, extra):
        """a-b if it is a provable small constant"""
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            v = d.as_long()
            return v if abs(v) <= 3 else None
        for v in (0, 1, -1):
            if self.entailed(a - b == v, extra):
                return v
        return None

    # ------------------------------------------------------------ hypotheses
    def with_hyps(self, t, extra, depth, unf):
        """use path equalities as rewrite rules: hypothesis x == e with x an atom"""
        if depth > 6:
            return None
        subs = []
        for h in self.c.pc + extra:
            if z3.is_eq(h) and h.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
                l, r = h.arg(0), h.arg(1)
                if z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(l, r):
                    subs.append((l, r))
                elif z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(r, l):
                    subs.append((r, l))
        if not subs:
            return None
        t2 = t
        for s in subs:
            t2 = z3.substitute(t2, s)
        if t2.eq(t):
            return None
        return self.zero(t2, extra, depth + 3, unf)

    # ------------------------------------------------------------ smt
    def smt(self, goal, extra=()):
        t0 = time.time()
        c = self.c
        hyps = list(c.pc) + list(extra)
        facts = list(c.facts)
        ng = z3.Not(goal)
        last = None
        for attempt in ("lin", "full", "nra"):
            if attempt == "nra":
                s = z3.SolverFor("QF_NRA")
                fs = [purify(p) for p in hyps + facts if not z3.is_quantifier(p)]
                s.add(*fs)
                s.add(purify(ng))
            else:
                s = z3.Solver()
                s.add(*hyps)
                s.add(*(facts if attempt == "full" else [f for f in facts if not _nl(f)]))
                s.add(ng)
            s.set("timeout", core.tmo(Z3_TIMEOUT if attempt != "lin" else 3000))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            c.store.stats["branch_queries"] += 0
            if r == z3.unsat:
                return Result("proved", "z3" + ("-nra" if attempt == "nra" else ""), time.time() - t0)
            if r == z3.sat and attempt != "lin":
                return Result("refuted", "z3", time.time() - t0, model=s.model() if attempt != "nra" else None,
                              detail="countermodel")
            if r == z3.sat and attempt == "lin":
                last = s.model()
        return Result("unknown", "z3", time.time() - t0, model=last, detail="no verdict within the time limit")


def all_conds(t):
    """conditions (without if-then-else inside) of the if-then-elses of t"""
    out, seen, todo, ids = [], set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and not ring.has_ite(x.arg(0)) and x.arg(0).get_id() not in ids:
                ids.add(x.arg(0).get_id())
                out.append(x.arg(0))
            todo.extend(x.children())
    return out


def _cmp_args(q):
    while z3.is_not(q):
        q = q.arg(0)
    return q.children()


def _cmp_form(q):
    """(kind, difference) of a real comparison"""
    k = q.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and q.arg(0).sort().kind() == z3.Z3_REAL_SORT:
        a, b = q.arg(0), q.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        return ("le" if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else "lt" if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else "eq"), a - b
    return None


def occurs(x, t):
    return bool(apps(t, lambda y: y.eq(x)))


def purify(t):
    """replace uninterpreted applications and int casts by constants (for NRA)"""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 or x.decl().kind() in (z3.Z3_OP_TO_REAL,):
                if x.sort() == z3.RealSort():
                    r = z3.Real("p!" + str(k))
                elif x.sort() == z3.IntSort():
                    r = z3.Int("p!" + str(k))
                else:
                    r = z3.Bool("p!" + str(k))
                    r = r if x.sort() == z3.BoolSort() else x
            elif x.num_args():
                ch = [go(q) for q in x.children()]
                r = ring._rebuild(x, ch)
            else:
                r = x
        else:
            r = x
        memo[k] = r
        return r
    return go(t)


def _iseq(g):
    return z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)


class Sub:
    """context with extra hypotheses"""

    def __init__(self, c, extra):
        self.c = c
        self.pc = list(c.pc) + list(extra)
        self.store = c.store
        self._s = self._i = None

    @property
    def facts(self):
        return self.c.facts

    def _sol(self):
        if self._s is None:
            self._s = z3.Solver()
            self._s.set("timeout", core.tmo(1500))
            self._s.add(*self.pc)
            self._s.add(*[f for f in self.c.facts if not _nl(f)])
        return self._s

    def _isol(self):
        from .core import real_nonlinear
        if self._i is None:
            self._i = z3.Solver()
            self._i.set("timeout", core.tmo(1500))
            self._i.add(*[q for q in self.pc if not real_nonlinear(q)])
            self._i.add(*[f for f in self.c.facts if not _nl(f)])
        return self._i


def instance_facts(c, terms):
    """axiom instances of exp/log/sqrt/pow for every application in the terms"""
    from . import funcs
    from .core import idiv_facts
    rules = c.store.rules
    for t in terms:
        for x in apps(t, lambda x: x.num_args() > 0 and (x.decl().name() in rules or x.decl().name() in ("idiv", "imod"))):
            for f in (idiv_facts(*x.children()) if x.decl().name() in ("idiv", "imod") else rules[x.decl().name()](x)):
                c.fact(f)
        for x in apps(t, lambda x: x.decl().name() in ("exp", "log", "sqrt", "pow") and x.num_args() > 0):
            a = x.arg(0)
            nm = x.decl().name()
            if nm == "exp":
                c.fact(x > 0)
                c.fact(x >= 1 + a)
                c.fact(z3.Implies(a <= 0, x <= 1))
                c.fact(z3.Implies(a < 0, x < 1))
                c.fact(z3.Implies(a >= 0, x >= 1))
            elif nm == "log":
                c.fact(z3.Implies(a > 1, x > 0))
                c.fact(z3.Implies(a == 1, x == 0))
                c.fact(z3.Implies(z3.And(a > 0, a < 1), x < 0))
                c.fact(z3.Implies(a > 0, x <= a - 1))
            elif nm == "sqrt":
                c.fact(x >= 0)
                c.fact(z3.Implies(a > 0, x > 0))
                c.fact(z3.Implies(a >= 0, x * x == a))
