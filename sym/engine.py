"""Path-exploring symbolic execution engine.

The code under test is ordinary Python executed by CPython on symbolic scalars (values.py) held in symbolic
arrays (nparr.py).  A branch on a symbolic boolean asks the engine, which asks z3 whether each side is feasible
under the current path condition, takes one side and schedules the other for re-execution.  Exploration is by
re-execution from a decision prefix, so any Python state is rebuilt from scratch on every path.
"""
import sys
import random
import time

import z3


class PathAbort(BaseException):
    """Steering exception: abandon this path (infeasible or assumption violated)."""


class Unsupported(BaseException):
    """The code under test used something the symbolic model does not cover."""


class Budget(BaseException):
    """Exploration budget exhausted."""


class Inconclusive(BaseException):
    """The solver returned unknown."""


CURRENT = None


def cur():
    return CURRENT


class Stats(object):
    FIELDS = ("paths", "aborted", "forks", "queries", "proved", "checks", "inconclusive")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    def asdict(self):
        out = dict((f, getattr(self, f)) for f in self.FIELDS)
        out["solver_s"] = self.solver_s
        out["notes"] = dict(self.notes)
        return out


class Violation(object):
    def __init__(self, msg, model, kind="assert"):
        self.msg = msg
        self.model = model          # name -> concrete python value
        self.kind = kind

    def __repr__(self):
        return "Violation(%r, %r)" % (self.msg, self.model)


class Engine(object):
    def __init__(self, query_ms=20000, max_paths=20000, deadline=None, trace=None):
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.fns = set()

    # ---------------------------------------------------------------- exploration

    def explore(self, run, stop_on_violation=1):
        """Run `run(self)` on every feasible path.  Returns list of Violations found (possibly unconfirmed)."""
        global CURRENT
        self.violations = []
        work = [()]
        self.complete = True
        while work:
            if self.stats.paths >= self.max_paths or (self.deadline is not None and time.time() > self.deadline):
                self.complete = False
                self.stats.note("budget exhausted with %d pending prefixes" % len(work))
                break
            prefix = work.pop()
            self._start(prefix)
            prev, CURRENT = CURRENT, self
            try:
                run(self)
            except PathAbort:
                self.stats.aborted += 1
            finally:
                CURRENT = prev
            self.stats.paths += 1
            work.extend(self.pending)
            if len(self.violations) >= stop_on_violation:
                break
        return self.violations

    def _start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.model_cache = None
        self.counter = 0
        self.inputs = []            # (name, kind, sym)
        self.ranges = []            # (variable, lo, hi, grid) of numeric inputs, for diverse witnesses
        self.gridcons = []          # constraints applied only when extracting a model
        self.pathdesc = []
        self.axioms_seen = set()
        self.memo = {}
        self.fork_index = False

    # ---------------------------------------------------------------- solver

    def add(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.solver.add(cond)
        self.model_cache = None

    def sat(self, *conds):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*conds)
        self.stats.solver_s += time.time() - t
        return r

    def assume(self, cond):
        """Restrict the path to cond (harness assumption)."""
        cond = tobool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.solver.add(cond)
        self.model_cache = None
        if self.pos >= len(self.prefix):
            r = self.sat()
            if r == z3.unsat:
                raise PathAbort()

    def fresh(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def branch(self, cond):
        """Decide a symbolic boolean, forking if both sides are feasible."""
        if cond is True or cond is False:
            return cond
        raw = cond
        key = raw.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        cond = z3.simplify(raw)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        tag = raw.hash()
        if self.pos < len(self.prefix):
            val, was = self.prefix[self.pos]
            if was != tag:
                raise Inconclusive("non-deterministic re-execution")
        else:
            if self.deadline is not None and time.time() > self.deadline + 5:
                raise Budget()
            rt = self.sat(cond)
            if rt == z3.unsat:
                val = False
            else:
                rf = self.sat(z3.Not(cond))
                if rt == z3.unknown or rf == z3.unknown:
                    self.stats.note("unknown feasibility query (both sides explored)")
                if rf == z3.unsat:
                    val = True
                else:
                    val = True
                    self.pending.append(tuple(self.decisions) + ((False, tag),))
                    self.stats.forks += 1
        self.pos += 1
        self.decisions.append((val, tag))
        self.solver.add(cond if val else z3.Not(cond))
        self.memo[key] = (val, raw)
        return val

    def choose(self, n, label=None):
        """Nondeterministic choice of an integer in range(n) (finite-domain symbolic input)."""
        if n == 1:
            return 0
        tag = "choose:%s:%d" % (label, n)
        if self.pos < len(self.prefix):
            val, was = self.prefix[self.pos]
            if was != tag:
                raise Inconclusive("non-deterministic re-execution")
        else:
            val = 0
            for i in range(n - 1, 0, -1):
                self.pending.append(tuple(self.decisions) + ((i, tag),))
            self.stats.forks += n - 1
        self.pos += 1
        self.decisions.append((val, tag))
        return val

    def enumerate_value(self, term, limit=64):
        """Concretise an Int/Real z3 term: solver-driven complete enumeration of its feasible values (fork per value)."""
        term = z3.simplify(term)
        if z3.is_int_value(term) or z3.is_rational_value(term):
            return term
        for _ in range(limit):
            # deterministic choice of candidate: recorded in decisions as the value itself
            if self.pos < len(self.prefix):
                val = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(val)
                kind, num, den = val
                zv = z3.IntVal(num) if z3.is_int(term) else z3.RealVal("%d/%d" % (num, den))
                if kind == "eq":
                    self.solver.add(term == zv)
                    return zv
                self.solver.add(term != zv)
                continue
            r = self.sat()
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathAbort()
                raise Inconclusive("concretise")
            m = self.solver.model()
            zv = m.eval(term, model_completion=True)
            if z3.is_algebraic_value(zv):
                zv = zv.approx(20)
            if z3.is_int_value(zv):
                num, den = zv.as_long(), 1
            else:
                num, den = zv.numerator_as_long(), zv.denominator_as_long()
            if self.sat(term != zv) != z3.unsat:
                self.pending.append(tuple(self.decisions) + (("ne", num, den),))
                self.stats.forks += 1
            self.pos += 1
            self.decisions.append(("eq", num, den))
            self.solver.add(term == zv)
            return zv
        self.stats.note("concretisation limit reached")
        self.complete = False
        raise PathAbort()

    # ---------------------------------------------------------------- assertions

    def check(self, cond, msg, kind="assert"):
        """Assert that cond holds on this path for every value of the inputs."""
        self.stats.checks += 1
        cond = tobool(cond)
        if cond is True:
            self.stats.proved += 1
            return True
        if cond is not False:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                self.stats.proved += 1
                return True
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.sat(neg)
        if r == z3.unsat:
            self.stats.proved += 1
            return True
        if r == z3.unknown:
            r = self._second_opinion(neg)
            if r == z3.unsat:
                self.stats.proved += 1
                return True
            if r == z3.unknown:
                self.stats.inconclusive += 1
                self.stats.note("unknown: " + msg)
                # still try to find a representable witness below
        model = self.extract(neg)
        if model is None:
            # no representable witness: the violation needs values outside the stated input grid
            if r == z3.sat and self.extracted == z3.unknown:
                self.stats.inconclusive += 1
                self.stats.note("unknown on the input grid: " + msg)
            elif r == z3.sat:
                self.stats.proved += 1
                self.stats.note("counterexample only off the input grid (outside the bounds): " + msg)
            return True
        self.violations.append(Violation(msg, model, kind))
        return False

    def _second_opinion(self, neg):
        """fresh (non-incremental) solvers with other strategies, for a query the incremental solver gave up on"""
        for make in (lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "smt").solver(),
                     lambda: z3.SolverFor("QF_NRA"), self._reseeded):
            try:
                s = make()
                s.set("timeout", self.query_ms)
                for a in self.solver.assertions():
                    s.add(a)
                s.add(neg)
                t = time.time()
                self.stats.queries += 1
                r = s.check()
                self.stats.solver_s += time.time() - t
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    def _reseeded(self):
        s = z3.Solver()
        s.set("smt.random_seed", 7)
        return s

    def extract(self, extra=None):
        """Model of the path condition (+extra) with every input on its representable grid, or None."""
        self.solver.push()
        self.extracted = z3.unsat
        try:
            if extra is not None:
                self.solver.add(extra)
            for prefer in self.prefer_levels():
                self.solver.push()
                for c in prefer:
                    self.solver.add(c)
                r = self.sat()
                if r == z3.sat:
                    m = self.solver.model()
                    out = dict((name, val(m)) for name, val in self.inputs)
                    self.solver.pop()
                    return out
                if r == z3.unknown:
                    self.extracted = r
                self.solver.pop()
            return None
        finally:
            self.solver.pop()

    def prefer_levels(self):
        return [list(self.gridcons)]

    def witness(self):
        """Reachability witness of the current path (a concrete input that follows it), away from the all-zero corner where the path allows it."""
        rng = random.Random(len(self.decisions) * 1000 + self.stats.paths)
        depth = 0
        stop = time.time() + 0.5
        try:
            for v, lo, hi, g in self.ranges[:60]:
                if time.time() > stop:
                    break
                c = v == (rng.randint(lo, hi) if g is None else z3.Q(rng.randint(int(lo * 2 ** g), int(hi * 2 ** g)), 2 ** g))
                if self.sat(c) == z3.sat:
                    self.solver.push()
                    depth += 1
                    self.solver.add(c)
            return self.extract()
        finally:
            if depth:
                self.solver.pop(depth)


def tobool(c):
    """python bool / z3 BoolRef from SymBool, bool, BoolRef."""
    if c is True or c is False:
        return c
    z = getattr(c, "z", None)
    if z is not None:
        return z
    if isinstance(c, z3.BoolRef):
        return c
    return bool(c)
