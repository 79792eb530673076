"""Path exploration: global replay of a harness, and local merging."""
import time

import z3

from .core import Ctx, PathEnd, Stop, Unsupported, ctx, num
from .seq import scope


class Store:
    """shared by all paths of one harness run"""

    def __init__(self):
        self.stats = {"branch_queries": 0, "paths": 0, "solver_s": 0.0}
        self.index_vars = set()
        self.sums = {}
        self.sum_by_body = {}
        self.loops = {}
        self.rec = {}        # uf name -> (kind, loop) for unfolding
        self.rules = {}      # uf name -> facts about an application
        self.divs = []
        self.functions = {}  # qualified name -> number of symbolic executions
        self.solves = []

    def note_div(self, t):
        c = Ctx.cur
        if c.binder or c.locals:
            return
        c.defined.append(("nonzero", t))

    def note_pos(self, t, what):
        c = Ctx.cur
        if c.binder or c.locals:
            return
        c.defined.append((what + " argument positive", t))

    def note_nonneg(self, t, what):
        c = Ctx.cur
        if c.binder or c.locals:
            return
        c.defined.append((what + " argument non-negative", t))


class Local:
    def __init__(self, prefix):
        self.prefix, self.trace, self.alts, self.conds = prefix, [], [], []


def run_local(thunk, limit=64):
    """all local paths of thunk: list of (cond, value); heap effects are the caller's business"""
    c = ctx()
    out = []
    stack = [[]]
    count = 0
    while stack:
        L = Local(stack.pop())
        count += 1
        if count > limit:
            raise Unsupported("too many local paths")
        c.locals.append(L)
        b = c.binder
        try:
            with scope():
                try:
                    v = thunk()
                    out.append((z3.And(*L.conds) if L.conds else z3.BoolVal(True), v))
                except PathEnd:
                    pass
        finally:
            c.locals.pop()
            c.binder = b
        stack += L.alts
    return out


def run_merged(thunk):
    from .arrays import ite
    from .core import Bool
    res = run_local(thunk)
    if not res:
        raise PathEnd()
    r = res[-1][1]
    for cond, v in reversed(res[:-1]):
        r = ite(Bool(cond), v, r)
    return r


class Explorer:
    def __init__(self, harness_fn, make_env, max_paths=400, deadline=None):
        self.fn, self.make_env = harness_fn, make_env
        self.store = Store()
        self.max_paths = max_paths
        self.results = []
        self.undecided = []
        self.deadline = deadline

    def run(self):
        stack = [[]]
        while stack:
            if self.store.stats["paths"] >= self.max_paths:
                self.undecided.append("path limit reached")
                break
            if self.deadline and time.time() > self.deadline:
                self.undecided.append("time limit reached")
                break
            c = Ctx(stack.pop(), self.store)
            c.defined = []
            Ctx.cur = c
            env = self.make_env(c, self)
            try:
                try:
                    self.fn(env)
                    env.done()
                except PathEnd:
                    pass
                except Unsupported as e:
                    env.done()
                    self.undecided.append("outside reach: " + str(e))
                except Stop:
                    raise
                except RecursionError as e:
                    self.undecided.append("recursion")
                except Exception as e:  # raised by the code under contract
                    env.raised(e)
            finally:
                Ctx.cur = None
            self.store.stats["paths"] += 1
            stack += c.alts
            self.results += env.results
        return self
