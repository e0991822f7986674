"""Path exploration, obligations and solver access."""
import time
import z3
from .values import *

RLIMIT = 40_000_000


class Prune(Exception):
    """the current path is infeasible or finished"""


class SRaise(Exception):
    """a Python exception raised by interpreted code"""
    def __init__(self, exc):
        self.exc = exc


class Obligation:
    __slots__ = ("name", "status", "model", "where", "detail", "time", "path", "args", "backend")
    def __init__(self, name, status, where=None, detail=None, t=0.0, args=None, backend="z3"):
        self.name, self.status, self.where, self.detail, self.time, self.args = name, status, where, detail, t, args
        self.backend = backend


class Engine:
    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set("rlimit", RLIMIT)
        self.prefix = []
        self.pos = 0
        self.pending = None
        self.journal = []
        self.counter = 0
        self.obligations = []
        self.on_fail = None          # callback(model) -> concrete args
        self.solver_time = 0.0
        self.solver_calls = 0
        self.paths = 0
        self.max_paths = 20000
        self.deadline = None
        self.stamp = 0
        self.depth = 0
        self.where = None
        self.store = {}              # per path scratch facts (journaled)
        self.contracts_used = set()
        self.trusted_used = set()
        self.functions_inlined = set()
        self._true = None
        self.trail = None            # literals and definitional facts of the current nested exploration
        self.name_prefix = ""

    # ---------------------------------------------------------------- names
    def fresh_name(self, base):
        self.counter += 1
        return f"{self.name_prefix}{base}!{self.counter}"

    def fresh_int(self, base="i", lo=None, hi=None):
        v = z3.Int(self.fresh_name(base))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    # ---------------------------------------------------------------- journal
    def log(self, undo):
        self.journal.append(undo)

    def rollback(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    def set_store(self, key, val):
        had = key in self.store
        old = self.store.get(key)
        def undo():
            if had:
                self.store[key] = old
            else:
                self.store.pop(key, None)
        self.log(undo)
        self.store[key] = val

    # ---------------------------------------------------------------- solver
    def check(self, *assumptions):
        t = time.monotonic()
        if self.deadline is not None and t > self.deadline:
            raise Unsupported("unit time budget exhausted")
        r = self.solver.check(*assumptions)
        self.solver_time += time.monotonic() - t
        self.solver_calls += 1
        return r

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Prune()
        if isinstance(cond, SBool):
            cond = cond.e
        if self.trail is not None:
            self.trail.append(("lit", cond))
        self.solver.add(cond)
        c = z3.simplify(cond)
        if z3.is_false(c) or self.check() == z3.unsat:
            raise Prune()

    def add(self, cond):
        """add a definitional fact (never makes the path infeasible)"""
        if self.trail is not None and cond is not True:
            self.trail.append(("fact", cond))
        self.solver.add(cond)

    def decide(self, cond):
        """truth of `cond` on the current path, forking if both are possible"""
        if cond is True or cond is False:
            return cond
        if isinstance(cond, SBool):
            cond = cond.e
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
            self.pos += 1
            lit = cond if val else z3.Not(cond)
            if self.trail is not None and not forced:
                self.trail.append(("lit", lit))
            self.solver.add(lit)
            return val
        forced = True
        t = self.check(cond)
        if t == z3.unsat:
            val = False
        else:
            f = self.check(z3.Not(cond))
            if f == z3.unsat:
                val = True
            else:
                self.pending.append(self.prefix[:self.pos] + [(False, False)])
                val, forced = True, False
        self.prefix = self.prefix[:self.pos] + [(val, forced)]
        self.pos += 1
        lit = cond if val else z3.Not(cond)
        if self.trail is not None and not forced:
            self.trail.append(("lit", lit))
        self.solver.add(lit)
        return val

    def choose(self, n, what="choice"):
        """nondeterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            b = self.fresh_bool(what)
            if self.decide(b):
                return i
        return n - 1

    def entails(self, cond):
        """is cond implied by the path condition? (no fork)"""
        if cond is True or cond is False:
            return cond
        if isinstance(cond, SBool):
            cond = cond.e
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    # ---------------------------------------------------------------- exploration
    def explore(self, run, on_outcome):
        """run() is executed once per feasible path; on_outcome(result) is called inside the path"""
        saved = (self.prefix, self.pos, self.pending)
        work = [[]]
        base_counter = self.counter
        maxc = base_counter
        n = 0
        self.depth += 1
        try:
            while work:
                self.prefix, self.pos, self.pending = list(work.pop()), 0, work
                self.counter = base_counter
                mark = len(self.journal)
                self.solver.push()
                n += 1
                self.paths += 1
                if n > self.max_paths:
                    raise Unsupported(f"more than {self.max_paths} paths")
                try:
                    res = run()
                    on_outcome(res)
                except Prune:
                    pass
                finally:
                    maxc = max(maxc, self.counter)
                    self.rollback(mark)
                    self.solver.pop()
        finally:
            self.depth -= 1
            self.prefix, self.pos, self.pending = saved
            self.counter = maxc
        return n

    # ---------------------------------------------------------------- obligations
    def prove(self, cond, name, detail=None):
        """obligation: cond holds on the current path"""
        t0 = time.monotonic()
        if isinstance(cond, SBool):
            cond = cond.e
        if cond is True:
            self.obligations.append(Obligation(name, "discharged", self.where, t=0.0, backend="structural"))
            return True
        if cond is False:
            f = z3.BoolVal(False)
        else:
            f = z3.simplify(cond)
        if z3.is_true(f):
            self.obligations.append(Obligation(name, "discharged", self.where, t=0.0, backend="simplifier"))
            return True
        r = self.check(z3.Not(f))
        backend = "z3"
        if r == z3.unknown:
            r = self._second_opinion(z3.Not(f))
            backend = "cvc5"
        t = time.monotonic() - t0
        if r == z3.unsat:
            self.obligations.append(Obligation(name, "discharged", self.where, t=t, backend=backend))
            return True
        if r == z3.unknown:
            self.obligations.append(Obligation(name, "unknown", self.where, detail=self.solver.reason_unknown(), t=t))
            self.solver.add(f)
            return False
        args = None
        try:
            m = self.solver.model()
            if self.on_fail is not None:
                args = self.on_fail(m)
        except Exception as e:  # concretization problems must not hide the failure
            detail = f"{detail or ''} [model not concretized: {e!r}]"
        self.obligations.append(Obligation(name, "failed", self.where, detail=detail, t=t, args=args))
        if z3.is_false(f):
            raise Prune()
        self.solver.add(f)
        if self.check() == z3.unsat:
            raise Prune()
        return False

    def _second_opinion(self, extra):
        """give the same query to cvc5"""
        try:
            import cvc5
        except Exception:
            return z3.unknown
        s = z3.Solver()
        for a in self.solver.assertions():
            s.add(a)
        s.add(extra)
        txt = s.to_smt2()
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            slv.setOption("tlimit-per", "20000")
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = parser.getSymbolManager()
            res = None
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(slv, sm)
                if "unsat" in str(out):
                    res = z3.unsat
            return res if res is not None else z3.unknown
        except Exception:
            return z3.unknown
