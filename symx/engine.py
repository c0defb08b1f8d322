"""Path-exploring symbolic execution engine.

The real Python code (re-instrumented from /repo's working tree on every run,
see instrument.py) is executed on proxy values (proxies.py).  Whenever the code
branches on a symbolic condition the engine asks z3 which outcomes are feasible
under the current path condition and explores all of them, depth first, by
re-executing the code with the recorded decisions as a prefix.  An assertion of
a property is decided by asking z3 for an assignment that satisfies the path
condition and falsifies the assertion.
"""

import time
import z3


class PathStop(BaseException):
    """Base of all exceptions that steer the exploration."""


class Infeasible(PathStop):
    """The current path cannot be taken (an assumption is unsatisfiable)."""


class Undecided(PathStop):
    """The engine cannot follow the code on this path (solver gave up, cap hit)."""


class BudgetExceeded(PathStop):
    """Time or path budget is used up."""


class Entry:
    __slots__ = ("expr", "value", "open", "pushed", "mem", "extra")

    def __init__(self, expr, value, is_open, pushed, mem=None, extra=None):
        self.expr = expr      # z3 condition of this decision
        self.value = value    # decision taken
        self.open = is_open   # is the opposite still unexplored
        self.pushed = pushed  # has a scope been pushed for it
        self.mem = mem
        self.extra = extra


class Engine:
    def __init__(self, query_timeout_ms=4000, seed=1):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", seed)
        self.trace = []
        self.pos = 0
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.branches = 0
        self.forks = 0
        self.deadline = None
        self.max_steps = 200000
        # per path
        self.dom = {}          # base char variable name -> frozenset of code points
        self.inputs = {}       # input name -> descriptor
        self.uid = 0
        self.floats = {}
        self.maybe_infeasible = False
        self.path_notes = []

    # ------------------------------------------------------------------
    # solver access
    # ------------------------------------------------------------------
    def _check(self, *assumptions):
        self.queries += 1
        t0 = time.perf_counter()
        try:
            r = self.solver.check(*assumptions)
        except z3.Z3Exception:
            r = z3.unknown
        self.solver_time += time.perf_counter() - t0
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _check_with(self, expr):
        self.solver.push()
        self.solver.add(expr)
        r = self._check()
        self.solver.pop()
        return r

    # ------------------------------------------------------------------
    # path control
    # ------------------------------------------------------------------
    def begin_path(self):
        self.pos = 0
        self.dom = {}
        self.inputs = {}
        self.uid = 0
        self.floats = {}
        self.maybe_infeasible = False
        self.path_notes = []

    def backtrack(self):
        """Move to the next unexplored path; False when there is none."""
        while self.trace:
            e = self.trace[-1]
            if e.open:
                if e.pushed:
                    self.solver.pop()
                e.open = False
                e.value = not e.value
                self.solver.push()
                self.solver.add(e.expr if e.value else z3.Not(e.expr))
                e.pushed = True
                return True
            if e.pushed:
                self.solver.pop()
            self.trace.pop()
        return False

    def reset(self):
        while self.trace:
            e = self.trace.pop()
            if e.pushed:
                self.solver.pop()

    def _narrow(self, mem, value):
        name, members = mem
        cur = self.dom.get(name)
        if cur is not None:
            self.dom[name] = (cur & members) if value else (cur - members)

    def fork(self, expr, mem=None):
        """Decide a symbolic condition on this path.

        mem, if given, is (char variable name, frozenset of code points) such
        that expr is equivalent to membership of the variable in the set.
        """
        self.branches += 1
        if mem is not None:
            cur = self.dom.get(mem[0])
            if cur is not None:
                if cur <= mem[1]:
                    return True
                if cur.isdisjoint(mem[1]):
                    return False
        elif z3.is_true(expr):
            return True
        elif z3.is_false(expr):
            return False
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            if e.mem is not None:
                self._narrow(e.mem, e.value)
            return e.value
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        if len(self.trace) > self.max_steps:
            raise Undecided("too many symbolic branches on one path")
        rt = self._check_with(expr)
        if rt == z3.unsat:
            # the opposite is implied by the path condition
            self.trace.append(Entry(expr, False, False, False, mem))
            self.pos += 1
            if mem is not None:
                self._narrow(mem, False)
            return False
        rf = self._check_with(z3.Not(expr))
        if rf == z3.unsat:
            self.trace.append(Entry(expr, True, False, False, mem))
            self.pos += 1
            if mem is not None:
                self._narrow(mem, True)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.maybe_infeasible = True
        self.forks += 1
        self.trace.append(Entry(expr, True, True, True, mem))
        self.solver.push()
        self.solver.add(expr)
        self.pos += 1
        if mem is not None:
            self._narrow(mem, True)
        return True

    def assume(self, expr, check=True):
        if z3.is_true(expr):
            return
        if self.pos < len(self.trace):
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(expr)
        self.trace.append(Entry(expr, True, False, True))
        self.pos += 1
        if check:
            if self._check() == z3.unsat:
                raise Infeasible()

    def pick(self, expr, what):
        """A value the solver finds for expr on this path (deterministic on
        re-execution because it is stored in the trace)."""
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            return e.extra
        r = self._check()
        if r == z3.unsat:
            raise Infeasible()
        if r == z3.unknown:
            raise Undecided("solver gave no model for " + what)
        v = self.solver.model().eval(expr, model_completion=True)
        self.trace.append(Entry(None, True, False, False, None, v))
        self.pos += 1
        return v

    def concretise_int(self, expr, what="integer", cap=300):
        n = 0
        while True:
            v = self.pick(expr, what)
            if self.fork(expr == v):
                return v.as_long()
            n += 1
            if n > cap:
                raise Undecided("more than %u values for %s" % (cap, what))

    def concretise_real(self, expr, cap=150):
        n = 0
        while True:
            v = self.pick(expr, "decimal")
            if self.fork(expr == v):
                return v.as_fraction()
            n += 1
            if n > cap:
                raise Undecided("too many values for a decimal")

    def decide(self, expr):
        """Is expr true for every assignment of this path?  Returns
        ("valid", None), ("cex", model) or ("unknown", None)."""
        if z3.is_true(expr):
            return "valid", None
        self.solver.push()
        self.solver.add(z3.Not(expr))
        r = self._check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            return "valid", None
        if r == z3.sat:
            return "cex", m
        return "unknown", None

    def model(self):
        r = self._check()
        if r == z3.sat:
            return self.solver.model()
        return None

    def fresh_name(self, base):
        self.uid += 1
        return "%s!%u" % (base, self.uid)


CURRENT = None


def set_engine(e):
    global CURRENT
    CURRENT = e


def eng():
    return CURRENT
