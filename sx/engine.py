"""Path engine: decisions, path condition, solver.

One path is one execution of the harness. Every undecided branch on a symbolic condition asks Z3
which sides are feasible under the path condition and records the alternatives; paths are explored
depth first by re-execution with a prefix of decisions, keeping the solver's frames that the two
paths have in common.
"""
import time

import z3


class PathAbort(BaseException):
    """The path condition became infeasible (assumption)."""


class PathLimit(BaseException):
    """Too many steps on one path: candidate for non-termination."""


class WorkLimit(BaseException):
    """More work than a harness allowed (Engine.work)."""


class Incomplete(BaseException):
    """The path cannot be continued within the engine's limits."""


class NeedConcrete(Exception):
    """Raised inside string operations which the engine cannot express."""


STEP_LIMIT = 400_000
SOLVER_TIMEOUT_MS = 20_000

cur = None  # the current Engine (one per process)
on_reset = []  # called before each path


class Engine:
    def __init__(self, step_limit=STEP_LIMIT):
        global cur
        cur = self
        self.solver = z3.Solver()
        self.solver.set("timeout", SOLVER_TIMEOUT_MS)
        self.frames = []  # choices whose frames are on the solver stack
        self.keep = -1  # constraints added before decision number keep are already on the stack
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.step_limit = step_limit
        self.zvars = {}
        self.active = False
        self._reset_path([])

    # ---- path life cycle
    def _reset_path(self, prefix):
        self.prefix = list(prefix)
        self.choices = []
        self.alts = []
        self.pos = 0
        self.steps = 0
        self.work = None  # function entries and loop iterations, while they are counted
        self.work_limit = 0
        self.nvars = 0
        self.bounds = {}
        self.doms = {}
        self.words = {}
        self.soft = frozenset()
        self.seen_axioms = set()
        self.const_ids = {}
        self.names = {}
        self.conc = 0
        self.conc_why = {}
        self.model = None
        self.draws = []
        self.functions = set()
        self.obligations = 0
        self.path_unknown = False
        for f in on_reset:
            f()

    def start(self, prefix, alts, fresh):
        """prefix: decisions to take first, alts: what remains to be explored at each of them.
        fresh: not derived from the previous path's trail."""
        i = len(prefix) - 1
        if fresh or i < 0 or self.frames[:i] != list(prefix[:i]) or len(self.frames) < i:
            self.solver.reset()
            self.solver.set("timeout", SOLVER_TIMEOUT_MS)
            self.frames = []
            self.keep = -1
        else:
            n = len(self.frames) - i
            if n:
                self.solver.pop(n)
            del self.frames[i:]
            self.keep = i
        self._reset_path(prefix)
        self.alts_prefix = alts
        self.active = True

    def finish(self):
        self.active = False

    # ---- constraints
    def _in_kept_region(self):
        return self.pos <= self.keep

    def add(self, c):
        """Adds a constraint known to be consistent with the path condition."""
        if not self._in_kept_region():
            self.solver.add(c)
            if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)
            ):
                self.model = None

    def check(self, *extra):
        self.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.unknowns += 1
            self.path_unknown = True
        return r

    def _push(self, choice, c):
        """Opens the frame of the decision at self.pos."""
        if self.pos >= len(self.frames):  # else: frame kept from the previous path
            self.solver.push()
            if c is not None:
                self.solver.add(c)
            self.frames.append(choice)
        self.choices.append(choice)
        self.pos += 1

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            raise PathLimit("more than %d steps" % self.step_limit)

    def worked(self):
        if self.work is not None:
            self.work += 1
            if self.work > self.work_limit:
                raise WorkLimit

    # ---- decisions
    def decide(self, c):
        """c: z3 Bool. Returns a Python bool, forking if both are feasible."""
        self.tick()
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            side = self.prefix[self.pos]
            self.alts.append(self.alts_prefix[self.pos])
            self._push(side, c if side else z3.Not(c))
            return bool(side)
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            self.model = self.solver.model() if r == z3.sat else None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            first = z3.is_true(v)
            m1 = self.model
        else:
            first = None
        nc = z3.Not(c)
        if first is None:
            rt = self.check(c)
            mt = self.solver.model() if rt == z3.sat else None
            rf = self.check(nc)
            mf = self.solver.model() if rf == z3.sat else None
            models = {True: mt, False: mf}
            feas = {True: rt != z3.unsat, False: rf != z3.unsat}
        else:
            other = nc if first else c
            r = self.check(other)
            m2 = self.solver.model() if r == z3.sat else None
            models = {first: m1, (not first): m2}
            feas = {first: True, (not first): r != z3.unsat}
        if feas[True] and feas[False]:
            side, alts = 1, (0,)
        elif feas[True]:
            side, alts = 1, ()
        elif feas[False]:
            side, alts = 0, ()
        else:
            raise PathAbort("infeasible")
        self.alts.append(alts)
        self._push(side, c if side else nc)
        self.model = models[bool(side)]
        return bool(side)

    def choose(self, n, label=""):
        """Fresh choice variable with values 0..n-1: every value is feasible."""
        if n <= 1:
            return 0
        self.tick()
        v = self.new_int("choice")
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            self.alts.append(self.alts_prefix[self.pos])
        else:
            k = 0
            self.alts.append(tuple(range(1, n)))
        m = self.model
        self._push(k, v == k)
        self.model = m
        return k

    def choose_value(self, compute):
        """Decision whose value is computed once (concretisation) and kept in the trail."""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = compute()
        self.alts.append(())
        m = self.model
        self._push(k, None)
        self.model = m
        return k

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathAbort("assumption")
            return
        e = c.e if hasattr(c, "e") else c
        if e is True:
            return
        if e is False:
            raise PathAbort("assumption")
        if self._in_kept_region():
            return
        self.solver.add(e)
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            return
        self.model = None
        if self.pos >= len(self.prefix):
            r = self.check()
            if r == z3.unsat:
                raise PathAbort("assumption")
            self.model = self.solver.model() if r == z3.sat else None

    # ---- variables
    def zint(self, name):
        v = self.zvars.get(name)
        if v is None:
            v = self.zvars[name] = z3.Int(name)
        return v

    def new_name(self, kind):
        self.nvars += 1
        return "%s!%d" % (kind, self.nvars)

    def new_int(self, kind):
        return self.zint(self.new_name(kind))

    def new_nat(self, kind, hi):
        """Fresh variable in 0..hi (hi None: unbounded). 0 is always allowed, so that a model
        which does not mention the variable stays a model."""
        name = self.new_name(kind)
        v = self.zint(name)
        self.bounds[name] = (0, hi)
        if not self._in_kept_region():
            self.solver.add(v >= 0)
            if hi is not None:
                self.solver.add(v <= hi)
        return name

    def current_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            if r != z3.sat:
                raise Incomplete("solver gave no model")
            self.model = self.solver.model()
        return self.model

    def witness(self):
        """A model of the path condition in which identifiers differ in text, case and length where
        they can (to replay on the real code)."""
        m = self.current_model()
        if not self.words:
            return m
        conds = []
        for i, (b, w) in enumerate(self.words.items()):
            conds.append(self.zint(b) == 101 + i)
            if not isinstance(w.c, int):
                conds.append(self.zint(w.c) == i % 3)
            lo, hi = w.len.range()
            if hi is None or hi > lo:
                conds.append(w.len.e == min(hi or 9, max(lo, 2 + (i * 2) % 5)))
        if self.check(*conds) == z3.sat:
            return self.solver.model()
        return m

    # ---- next path
    def next_path(self):
        """Prefix and remaining alternatives of the next path in depth-first order, or None."""
        for i in range(len(self.alts) - 1, -1, -1):
            if self.alts[i]:
                alts = self.alts[:i] + [self.alts[i][1:]]
                return self.choices[:i] + [self.alts[i][0]], alts
        return None

    def split(self):
        """All remaining prefixes, each as a task of its own."""
        out = []
        for i in range(len(self.alts)):
            for a in self.alts[i]:
                out.append(self.choices[:i] + [a])
        return out
