"""Depth-first exploration of symbolic branches by re-execution."""
from . import arr, decide
from . import term as T
from .term import Unsupported


class Infeasible(BaseException):
    """Steers exploration; deliberately not an Exception."""


class PathLimit(Exception):
    pass


class Explorer(object):
    def __init__(self, max_paths=400, branch_timeout=5):
        self.prefix = []
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.forks = 0

    def run(self, fn):
        """Yield (outcome) of fn(self) for every feasible path."""
        stack = [[]]
        count = 0
        while stack:
            self.prefix = stack.pop()
            self.trace = []
            self.pc = []
            self.pending = []
            T.reset()
            arr.BRANCH[0] = self.branch
            try:
                res = fn(self)
            except Infeasible:
                res = None
            finally:
                arr.BRANCH[0] = None
            for alt in self.pending:
                stack.append(alt)
            if res is None:
                continue
            count += 1
            if count > self.max_paths:
                raise PathLimit('more than %d paths' % self.max_paths)
            yield res

    # decisions ------------------------------------------------------------
    def _next(self):
        i = len(self.trace)
        if i < len(self.prefix):
            return self.prefix[i]
        return None

    def branch(self, node):
        neg = T.not_(node)
        if node in self.pc:
            return True
        if neg in self.pc:
            return False
        d = self._next()
        if d is None:
            self.forks += 1
            decide.roots(node, self.pc)
            if decide.small(node, self.pc):
                self.trace.append(True)
                self.pc.append(node)
                return True
            if decide.sign(node, self.pc):
                self.trace.append(True)
                self.pc.append(node)
                return True
            if decide.sign(neg, self.pc):
                self.trace.append(False)
                self.pc.append(neg)
                return False
            can_t = decide.feasible(self.pc + [node], self.branch_timeout)
            can_f = decide.feasible(self.pc + [neg], self.branch_timeout)
            if can_t == 'unsat' and can_f == 'unsat':
                raise Infeasible()
            if can_t == 'unsat':
                d = False
            elif can_f == 'unsat':
                d = True
            else:
                d = True
                self.pending.append(self.trace + [False])
        self.trace.append(d)
        self.pc.append(node if d else neg)
        return d

    def choose(self, n):
        d = self._next()
        if d is None:
            d = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
        self.trace.append(d)
        return d

    def assume(self, node):
        if node is T.TRUE:
            return
        if node is T.FALSE:
            raise Infeasible()
        self.pc.append(node)
        d = self._next()
        # an assumption consumes no decision
        if decide.feasible(self.pc, self.branch_timeout) == 'unsat':
            raise Infeasible()
