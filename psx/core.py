"""Path exploration: decisions, solver alignment, checks.

One `Path` object is active while a harness runs symbolically.  Every symbolic
branch, choice and check is routed through it.  Paths are explored by
re-execution: a path is identified by the list of its decisions.
"""
import os
import random
import time as _time
from fractions import Fraction

import z3


class EngineStop(BaseException):
    """Base of everything the engine throws through the code under test."""


class Infeasible(EngineStop):
    """The path condition became unsatisfiable (assumption failed)."""


class Violation(EngineStop):
    def __init__(self, label, detail=""):
        BaseException.__init__(self, label)
        self.label = label
        self.detail = detail


class Inconclusive(EngineStop):
    """Solver answered unknown, or the engine cannot represent something."""


class PathTimeout(EngineStop):
    pass


class Incomplete(EngineStop):
    """Path dropped: a value had to be concretised beyond the enumeration cap."""


CUR = None          # active Path (symbolic mode) or None (native mode)


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return CUR


class Stats:
    FIELDS = ("paths", "completed", "infeasible", "forks", "forced", "choices",
              "queries", "solver_s", "checks", "discharged", "trivial_checks",
              "incomplete", "dropped", "concretisations", "native_runs",
              "native_match")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.reached = {}
        self.functions = set()
        self.max_depth = 0

    def merge(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(other, f))
        for k, v in other.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        self.functions |= other.functions
        self.max_depth = max(self.max_depth, other.max_depth)


class SolverStack:
    """Keeps one incremental z3 solver aligned with the current path."""

    def __init__(self, timeout_ms):
        self.timeout_ms = timeout_ms
        self.reset()

    def reset(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", min(1500, self.timeout_ms))
        self.answered = self.solver
        self.fallbacks = 0
        self.stack = []
        self.pos = 0

    def restart(self):
        self.pos = 0

    def add(self, expr):
        if self.pos < len(self.stack):
            if self.stack[self.pos].eq(expr):
                self.pos += 1
                return
            n = len(self.stack) - self.pos
            self.solver.pop(n)
            del self.stack[self.pos:]
        self.solver.push()
        self.solver.add(expr)
        self.stack.append(expr)
        self.pos += 1

    def _trim(self):
        if self.pos < len(self.stack):
            self.solver.pop(len(self.stack) - self.pos)
            del self.stack[self.pos:]

    def check(self, *extra):
        self._trim()
        self.answered = self.solver
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # the incremental solver is stuck: start over, other strategies
            for mk in (lambda: z3.SolverFor("QF_LIRA"),
                       lambda: z3.Tactic("qflia").solver()
                       if False else z3.Then("simplify", "solve-eqs",
                                             "smt").solver()):
                s = mk()
                s.set("timeout", self.timeout_ms)
                for e in self.stack:
                    s.add(e)
                s.add(*extra)
                r = s.check()
                self.fallbacks += 1
                if os.environ.get("PSX_DEBUG"):
                    print("fallback", r, flush=True)
                if r != z3.unknown:
                    self.answered = s
                    break
        return r

    def model(self):
        return self.answered.model()


def rat(v):
    """Exact z3 rational for a python number."""
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


CONCRETISE_CAP = 24


class Path:
    def __init__(self, solver, stats, prefix, model=None):
        self.solver = solver
        self.stats = stats
        self.prefix = prefix        # decisions to replay
        self.trail = []             # decisions taken so far
        self.pending = []           # alternative prefixes found on this path
        self.model = model          # satisfies the path condition, or None
        self.facts = {}             # ast id -> bool
        self.keep = []              # keeps asts in `facts` alive
        self.names = {}
        self.inputs = []            # (name, kind, payload) in creation order
        self.observed = []
        self.incomplete = False
        self.exact = True
        solver.restart()

    # ---- naming -------------------------------------------------------
    def unique(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    # ---- solver -------------------------------------------------------
    def query(self, *extra):
        t = _time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += _time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver: unknown (%s)" %
                               self.solver.answered.reason_unknown())
        return r == z3.sat

    def get_model(self):
        if self.model is None:
            if not self.query():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def assert_(self, expr):
        self.solver.add(expr)

    def holds_in_model(self, expr):
        if self.model is None:
            return None
        v = self.model.eval(expr, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ---- decisions ----------------------------------------------------
    def _remember(self, expr, value):
        self.facts[expr.get_id()] = value
        self.keep.append(expr)

    def branch(self, expr):
        """Decide a z3 Bool; returns a python bool."""
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        neg = False
        while z3.is_not(expr):
            expr = expr.arg(0)
            neg = not neg
        known = self.facts.get(expr.get_id())
        if known is not None:
            return known != neg
        r = self._branch(expr)
        self._remember(expr, r)
        return r != neg

    def _branch(self, expr):
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            taken = d in ("T", "t")
            if d in ("T", "F"):     # a genuine fork; "t"/"f" are implied
                self.assert_(expr if taken else z3.Not(expr))
                # a model carried along satisfies the whole prefix
            return taken
        m = self.get_model()
        v = self.holds_in_model(expr)
        if v is None:
            v = self.query(expr)
            if v:
                self.model = self.solver.model()
            else:
                self.trail.append("f")
                self.stats.forced += 1
                return False
        other = z3.Not(expr) if v else expr
        if self.query(other):
            alt_model = self.solver.model()
            self.pending.append((self.trail + ["F" if v else "T"], alt_model))
            self.trail.append("T" if v else "F")
            self.stats.forks += 1
            self.assert_(expr if v else z3.Not(expr))
            return v
        self.trail.append("t" if v else "f")
        self.stats.forced += 1
        return v

    def choose(self, n):
        """An explicit n-way nondeterministic choice (no solver involved)."""
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            return d
        self.stats.choices += 1
        for k in range(n - 1, 0, -1):
            self.pending.append((self.trail + [k], self.model))
        self.trail.append(0)
        return 0

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise Infeasible()
            return
        if z3.is_true(expr):
            return
        self.assert_(expr)
        if len(self.trail) < len(self.prefix):
            return
        v = self.holds_in_model(expr)
        if v is not True:
            self.model = None
            self.get_model()

    def concretise(self, expr):
        """Enumerate the values of an Int expression by forking."""
        self.stats.concretisations += 1
        for _ in range(CONCRETISE_CAP):
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert isinstance(d, tuple), d
                self.trail.append(d)
                op, val = d
                if op in ("=", "e"):
                    if op == "=":
                        self.assert_(expr == val)
                    return val
                self.assert_(expr != val)
                continue
            m = self.get_model()
            val = m.eval(expr, model_completion=True).as_long()
            if self.query(expr != val):
                self.pending.append((self.trail + [("!", val)],
                                     self.solver.model()))
                self.trail.append(("=", val))
                self.assert_(expr == val)
                self.stats.forks += 1
            else:
                self.trail.append(("e", val))
            return val
        self.stats.incomplete += 1
        self.incomplete = True
        raise Incomplete()

    # ---- properties ---------------------------------------------------
    def check(self, expr, label, detail=""):
        """Every value on this path must satisfy `expr`."""
        self.stats.checks += 1
        if isinstance(expr, bool):
            self.stats.trivial_checks += 1
            if not expr:
                self.get_model_full()
                raise Violation(label, detail)
            self.stats.discharged += 1
            return
        if z3.is_true(expr):
            self.stats.trivial_checks += 1
            self.stats.discharged += 1
            return
        if len(self.trail) < len(self.prefix):
            # an ancestor path has discharged this check already
            self.stats.discharged += 1
            return
        if self.query(z3.Not(expr)):
            self.model = self.solver.model()
            raise Violation(label, detail)
        self.stats.discharged += 1

    def get_model_full(self):
        """A model of the complete path condition (after a replayed prefix)."""
        if self.model is None:
            if not self.query():
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def reach(self, label):
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    # ---- results ------------------------------------------------------
    def assignment(self):
        """Concrete values of all inputs created on this path."""
        m = self.get_model_full()
        out = {}
        for name, kind, payload in self.inputs:
            out[name] = input_value(m, kind, payload)
        return out

    def coincidence(self, seed):
        """Values which satisfy the path condition and in which as many
        inputs as possible (seed 1), or some of them, are equal."""
        rnd = random.Random(seed)
        ints = [v for _, kind, v in self.inputs if kind == "int"]
        extra = []
        for i in range(1, len(ints)):
            e = ints[i] == (ints[i - 1] if seed == 1
                            else ints[rnd.randrange(i)])
            if rnd.random() < (0.5 if seed > 2 else 1) and \
               self.query(*(extra + [e])):
                extra.append(e)
        if not self.query(*extra):
            raise Infeasible()
        m = self.solver.model()
        return {name: input_value(m, kind, payload)
                for name, kind, payload in self.inputs}


def input_value(m, kind, payload):
    if kind == "choice":
        return payload
    v = m.eval(payload, model_completion=True)
    if kind == "int":
        return v.as_long()
    if kind.startswith("real"):
        return v.as_long() / int(kind[4:])
    if kind == "bool":
        return bool(z3.is_true(v))
    raise AssertionError(kind)
