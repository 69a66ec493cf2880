"""Path exploration by re-execution; branch feasibility decided by the solver."""
import time
from fractions import Fraction

from . import term as T
from . import smt
from .solver import Z3, SolverError


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Budget(Exception):
    pass


BIG = Fraction(600)


class Engine(object):
    def __init__(self, assume=(), cut_extremes=True, timeout=10.0):
        self.solver = Z3()
        self.base_assume = [a for a in assume if not isinstance(a, bool)]
        self.cut_extremes = cut_extremes
        self.fp = False
        self.timeout = timeout
        self.cuts = {}
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.solver_decisions = 0
        self.unknown_branches = 0
        self.labels = {}
        self.feas_cache = {}
        self.sorts = {}

    # ------------------------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # [(node id, value, forced)]
        self.pc = list(self.base_assume)
        self.known = {}
        for a in self.pc:
            self._learn(a, True)

    def _learn(self, n, val):
        if isinstance(n, T.Node):
            if n.op == 'not':
                return self._learn(n.args[0], not val)
            self.known[n.id] = val
            if val and n.op == 'and':
                for a in n.args:
                    self._learn(a, True)
            if not val and n.op == 'or':
                for a in n.args:
                    self._learn(a, False)

    def assume(self, n):
        """Add a precondition inside a run."""
        if isinstance(n, bool):
            if not n:
                raise PathAbort()
            return
        if n.op == 'and':
            for a in n.args:
                self.assume(a)
            return
        self.pc.append(n)
        self._learn(n, True)

    def name_of(self, n):
        if n.op == 'const' and n.args.denominator == 1:
            return str(int(n.args))
        s = self.labels.get(n.id)
        return s if s is not None else 'S%d' % n.id

    def structural(self, n):
        if n.op == 'cmp':
            op, a, b = n.args
            f = T.nf(T.sub(a, b))
            s = T.sign_of(f)
            if s == '0':
                return op != '<'
            if s is None:
                return None
            if op == '<':
                if s == '-':
                    return True
                if s in ('+', '0+'):
                    return False
            elif op == '<=':
                if s in ('-', '0-'):
                    return True
                if s == '+':
                    return False
            else:
                if s in ('+', '-'):
                    return False
        return None

    def cut(self, n):
        """Comparisons of a real term with a huge constant: stay in range."""
        if n.op != 'cmp':
            return None
        op, a, b = n.args
        for x, y, flip in ((a, b, False), (b, a, True)):
            if y.op == 'const' and abs(y.args) >= BIG and x.sort == 'R':
                if op == '==':
                    v = False
                else:
                    # a < b
                    v = (y.args > 0) != flip
                return v
        return None

    def feasible(self, n):
        """solver: is pc & n satisfiable?  unknown counts as feasible"""
        key = (tuple(p.id for p in self.pc[len(self.base_assume):]), n.id)
        r = self.feas_cache.get(key)
        if r is None:
            self.solver_decisions += 1
            try:
                txt, _ = smt.script(self.relevant(self.pc, n) + [n])
                ans, _ = self.solver.query(txt, timeout=self.timeout)
            except SolverError:
                ans = 'unknown'
            if ans == 'unknown':
                self.unknown_branches += 1
            r = ans != 'unsat'
            self.feas_cache[key] = r
        return r

    def relevant(self, pc, n):
        """pc conjuncts connected to n by shared inputs (sound for unsat; pc
        itself is satisfiable along an explored path)."""
        vs = set(T.variables([n]))
        sets = [(p, set(T.variables([p]))) for p in pc]
        out, changed = [], True
        rest = sets
        while changed:
            changed = False
            nxt = []
            for p, s in rest:
                if s & vs:
                    out.append(p)
                    vs |= s
                    changed = True
                else:
                    nxt.append((p, s))
            rest = nxt
        return out

    def decide(self, n):
        if not isinstance(n, T.Node):
            return bool(n)
        if n.op == 'not':
            return not self.decide(n.args[0])
        if n.op == 'and':
            return all([self.decide(a) for a in n.args])
        if n.op == 'or':
            return any([self.decide(a) for a in n.args])
        self.decisions += 1
        v = self.known.get(n.id)
        if v is not None:
            return v
        v = self.structural(n)
        if v is not None:
            self.known[n.id] = v
            return v
        if self.pos < len(self.prefix):
            nid, v, forced = self.prefix[self.pos]
            if nid != n.id:
                raise Budget('non-deterministic re-execution')
            self.pos += 1
        else:
            c = self.cut(n) if self.cut_extremes else None
            if c is not None:
                self.cuts[T.show(n, 1)] = self.cuts.get(T.show(n, 1), 0) + 1
                # in-range by assumption, unless the path condition says no
                lit = n if c else T.not_(n)
                if self.feasible(lit):
                    self.pc.append(lit)
                    v, forced = c, True
                else:
                    v, forced = not c, True
                self.known[n.id] = v
                self.trace.append((n.id, v, 'cut' if v == c else True))
                return v
            t = self.feasible(n)
            f = self.feasible(T.not_(n))
            if not t and not f:
                self.infeasible += 1
                raise PathAbort()
            if t and f:
                v, forced = True, False
                self.work.append(self.trace + [(n.id, False, False)])
            else:
                v, forced = t, True
            self.known[n.id] = v
            self.trace.append((n.id, v, forced))
            if not forced:
                self._add(n, v)
            return v
        # replayed decision
        self.known[n.id] = v
        self.trace.append((n.id, v, forced))
        if forced is False or forced == 'cut':
            self._add(n, v)
        return v

    def _add(self, n, v):
        lit = n if v else T.not_(n)
        self.pc.append(lit)

    # ------------------------------------------------------------------
    def explore(self, fn, max_paths=100000, deadline=None):
        """Yield (result, exception) for every feasible path of fn()."""
        self.work = [[]]
        old = T.ENGINE
        T.ENGINE = self
        try:
            while self.work:
                if self.paths >= max_paths:
                    raise Budget('path limit %d' % max_paths)
                if deadline and time.time() > deadline:
                    raise Budget('time limit')
                prefix = self.work.pop()
                self.begin(prefix)
                try:
                    res, exc = fn(), None
                except PathAbort:
                    continue
                except T.Unsupported:
                    raise
                except Budget:
                    raise
                except Exception as e:       # the code under test raised
                    res, exc = None, e
                self.paths += 1
                yield res, exc
        finally:
            T.ENGINE = old

    # ------------------------------------------------------------------
    def solve(self, asserts, want=(), axioms='full', timeout=None, seed=0):
        """Raw query over pc + asserts. -> (answer, model of inputs)"""
        a = [x for x in asserts if not isinstance(x, bool)]
        if any(isinstance(x, bool) and not x for x in asserts):
            return 'unsat', None
        txt, inputs = smt.script(a, axioms, extra_vars=want)
        syms = {v: k for k, v in inputs.items()}
        try:
            ans, m = self.solver.query(txt, want=sorted(syms),
                                       timeout=timeout or self.timeout,
                                       seed=seed)
        except SolverError:
            return 'unknown', None
        if ans == 'sat' and m is not None:
            m = {syms['|%s|' % k]: v for k, v in m.items()
                 if '|%s|' % k in syms}
        return ans, m
