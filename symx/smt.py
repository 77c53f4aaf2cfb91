"""SMT-LIB2 back end: a solver process and the lowering of terms to it."""
import os
import select
import subprocess
import time
from fractions import Fraction

from . import term as T
from .term import Unsupported

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0,
         'asserted_nodes': 0, 'lra_instances': 0}

SOLVERS = {
    'z3-new': ['z3-new', '-in', '-smt2'],
    'z3': ['z3', '-in', '-smt2'],
    'cvc5': ['cvc5', '--incremental', '--produce-models', '--lang=smt2'],
}


class Solver(object):
    """One long-lived solver process; every query starts with (reset)."""

    def __init__(self, name='z3-new'):
        self.name = name
        self.p = None

    def start(self):
        self.p = subprocess.Popen(SOLVERS[self.name], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, bufsize=0)
        self.buf = b''

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def _readline(self, deadline):
        while b'\n' not in self.buf:
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            chunk = os.read(self.p.stdout.fileno(), 65536)
            if not chunk:
                raise EOFError('solver died')
            self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return line.decode().strip()

    def run(self, lines, timeout, want_model=()):
        """Send a script ending in a check; returns (verdict, model dict)."""
        t0 = time.time()
        STATS['queries'] += 1
        verdict, model = 'unknown', None
        try:
            if self.p is None or self.p.poll() is not None:
                self.start()
            script = ['(reset)']
            if self.name.startswith('z3'):
                script.append('(set-option :timeout %d)' % int(timeout * 1000))
            script += lines
            script.append('(echo "@done")')
            data = ('\n'.join(script) + '\n').encode()
            self._write(data, timeout)
            deadline = t0 + timeout + 5
            out = []
            while True:
                line = self._readline(deadline)
                if line is None:
                    self.stop()
                    out = ['timeout']
                    break
                if '@done' in line:
                    break
                if line:
                    out.append(line)
            if any('(error' in l for l in out):
                raise Unsupported('solver error: %s' % [l for l in out if 'error' in l][:2])
            for l in out:
                if l in ('sat', 'unsat', 'unknown', 'timeout'):
                    verdict = l if l != 'timeout' else 'unknown'
            if verdict == 'sat' and want_model:
                model = self._get_values(want_model, time.time() + 20)
        except (EOFError, BrokenPipeError):
            self.stop()
            verdict = 'unknown'
        STATS[verdict] += 1
        STATS['solver_s'] += time.time() - t0
        return verdict, model

    def _write(self, data, timeout):
        fd = self.p.stdin.fileno()
        view = memoryview(data)
        pos = 0
        while pos < len(data):
            n = os.write(fd, view[pos:pos + 60000])
            pos += n

    def _get_values(self, names, deadline):
        model = {}
        for i in range(0, len(names), 200):
            chunk = names[i:i + 200]
            self._write(('(get-value (%s))\n(echo "@done")\n'
                         % ' '.join(chunk)).encode(), 10)
            text = ''
            while True:
                line = self._readline(deadline)
                if line is None:
                    self.stop()
                    return None
                if '@done' in line:
                    break
                text += line + ' '
            if '(error' in text:
                return None
            for k, v in _parse(text)[0]:
                model[k] = _num(v)
        return model


def _parse(text):
    toks = text.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            out = []
            while toks[pos[0]] != ')':
                out.append(rd())
            pos[0] += 1
            return out
        return t
    res = []
    while pos[0] < len(toks):
        res.append(rd())
    return res


def _num(v):
    """SMT-LIB value -> Fraction / bool / float (algebraic numbers)."""
    if isinstance(v, str):
        if v == 'true':
            return True
        if v == 'false':
            return False
        if v.endswith('?'):
            v = v[:-1]
        return Fraction(v)
    if v[0] == '-' and len(v) == 2:
        return -_num(v[1])
    if v[0] == '/':
        return Fraction(_num(v[1])) / Fraction(_num(v[2]))
    if v[0] == 'root-obj':
        return _root(v[1], int(v[2]))
    raise ValueError(v)


def _polyval(e, x):
    if isinstance(e, str):
        return x if e == 'x' else float(Fraction(e))
    op = e[0]
    a = [_polyval(k, x) for k in e[1:]]
    if op == '+':
        return sum(a)
    if op == '*':
        r = 1.0
        for k in a:
            r *= k
        return r
    if op == '-':
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])
    if op == '^':
        return a[0] ** int(a[1])
    raise ValueError(op)


def _root(poly, k):
    """k-th real root of a univariate polynomial (bisection on a grid)."""
    roots = []
    n = 40001
    lo, hi = -200.0, 200.0
    prev, pv = lo, _polyval(poly, lo)
    for i in range(1, n):
        x = lo + (hi - lo) * i / (n - 1)
        v = _polyval(poly, x)
        if v == 0:
            roots.append(x)
        elif pv * v < 0:
            a, b, fa = prev, x, pv
            for _ in range(80):
                m = (a + b) / 2
                fm = _polyval(poly, m)
                if fa * fm <= 0:
                    b = m
                else:
                    a, fa = m, fm
            roots.append((a + b) / 2)
        prev, pv = x, v
    if len(roots) < k:
        raise ValueError('root-obj')
    return roots[k - 1]


def _lit(q):
    q = Fraction(q)
    s = '%d.0' % abs(q.numerator)
    if q.denominator != 1:
        s = '(/ %s %d.0)' % (s, q.denominator)
    return '(- %s)' % s if q < 0 else s


class Lower(object):
    """Lower terms to SMT-LIB.

    mode 'W': a complex variable and its conjugate become two independent real
        variables and a term becomes P + i*Q.  Exact for polynomial identities
        (the graph of conjugation is Zariski dense); only used for equalities.
    mode 'R': real and imaginary parts.
    """

    def __init__(self, mode):
        self.mode = mode
        self.lines = []
        self.names = {}      # node id -> (re, im) strings; None = 0
        self.decl = {}

    def _var(self, n):
        name = n.args[0]
        base = name[:-1] if name.endswith('~') else name
        if n.real:
            sn = 'r|%s' % name
            if self.mode == 'R' and T.CTX.aux.get(('int', n.id)):
                self._declare(sn, name, 'Int')
                return ('(to_real %s)' % self._q(sn), None)
            self._declare(sn, name)
            return (self._q(sn), None)
        if self.mode == 'W':
            sn = 'w|%s' % name
            self._declare(sn, name)
            return (self._q(sn), None)
        a, b = 're|%s' % base, 'im|%s' % base
        self._declare(a, base)
        self._declare(b, base)
        if name.endswith('~'):
            return (self._q(a), '(- %s)' % self._q(b))
        return (self._q(a), self._q(b))

    @staticmethod
    def _q(s):
        return '|%s|' % s.replace('|', ':')

    def _declare(self, sn, name, sort='Real'):
        if sn not in self.decl:
            self.decl[sn] = (name, sort)
            self.lines.append('(declare-const %s %s)' % (self._q(sn), sort))

    def add(self, roots):
        names = self.names
        for n in T.postorder(roots):
            if n.id in names:
                continue
            op = n.op
            if op == 'c':
                a, b = n.args
                names[n.id] = (_lit(a) if a != 0 else None,
                               _lit(b) if b != 0 else None)
                continue
            if op == 'v':
                names[n.id] = self._var(n)
                continue
            if op == 'b':
                self._declare('b|' + n.args[0], n.args[0], 'Bool')
                names[n.id] = self._q('b|' + n.args[0])
                continue
            if op == 'true' or op == 'false':
                names[n.id] = op
                continue
            if op == '+':
                (a, b), (c, d) = names[n.args[0].id], names[n.args[1].id]
                names[n.id] = (self._def(n, 'r', self._sum(a, c)),
                               self._def(n, 'i', self._sum(b, d)))
            elif op == '*':
                (a, b), (c, d) = names[n.args[0].id], names[n.args[1].id]
                r = self._sum(self._prod(a, c), self._negs(self._prod(b, d)))
                i = self._sum(self._prod(a, d), self._prod(b, c))
                names[n.id] = (self._def(n, 'r', r), self._def(n, 'i', i))
            elif op == 'ite':
                c = names[n.args[0].id]
                (a, b), (d, e) = names[n.args[1].id], names[n.args[2].id]
                r = None if a is None and d is None else \
                    '(ite %s %s %s)' % (c, a or '0.0', d or '0.0')
                i = None if b is None and e is None else \
                    '(ite %s %s %s)' % (c, b or '0.0', e or '0.0')
                names[n.id] = (self._def(n, 'r', r), self._def(n, 'i', i))
            elif op == '<=':
                (a, _), (c, _) = names[n.args[0].id], names[n.args[1].id]
                names[n.id] = self._def(n, 'r', '(<= %s %s)' % (a or '0.0', c or '0.0'), 'Bool')
            elif op == '=':
                names[n.id] = self._def(n, 'r', self.eq(*n.args), 'Bool')
            elif op == 'not':
                names[n.id] = '(not %s)' % names[n.args[0].id]
            elif op == 'and':
                names[n.id] = self._def(n, 'r', '(and %s)' % ' '.join(
                    names[k.id] for k in n.args), 'Bool')
            else:
                raise Unsupported('lower %s' % op)
            STATS['asserted_nodes'] += 1

    def eq(self, x, y):
        (a, b), (c, d) = self.names[x.id], self.names[y.id]
        parts = []
        if a is not None or c is not None:
            parts.append('(= %s %s)' % (a or '0.0', c or '0.0'))
        if b is not None or d is not None:
            parts.append('(= %s %s)' % (b or '0.0', d or '0.0'))
        if not parts:
            return 'true'
        return parts[0] if len(parts) == 1 else '(and %s)' % ' '.join(parts)

    def _def(self, n, part, expr, sort='Real'):
        if expr is None:
            return None
        if not expr.startswith('('):
            return expr
        name = 't%d%s' % (n.id, part)
        self.lines.append('(define-fun %s () %s %s)' % (name, sort, expr))
        return name

    @staticmethod
    def _sum(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return '(+ %s %s)' % (a, b)

    @staticmethod
    def _prod(a, b):
        if a is None or b is None:
            return None
        return '(* %s %s)' % (a, b)

    @staticmethod
    def _negs(a):
        return None if a is None else '(- %s)' % a


def has_complex_in_bool(roots):
    """Does any comparison depend on a complex variable?"""
    bools = [n for n in T.postorder(roots) if n.op in ('<=', '=')]
    if not bools:
        return False
    return any(not v.real for v in T.variables(bools))


# ---------------------------------------------------------------------------
# Polynomials (used only to choose hypothesis instances; the solver decides)
# ---------------------------------------------------------------------------
class PolyBudget(Exception):
    pass


class Polys(object):
    """Polynomial normal forms of terms.

    monomial = sorted tuple of variable ranks with repetition; rank -1 is the
    imaginary unit (occurs at most once).  coefficients are rationals.
    """

    def __init__(self, budget=400000):
        self.memo = {}
        self.budget = budget

    def mono_mul(self, m1, m2):
        if m1 and m1[0] == -1 and m2 and m2[0] == -1:
            return tuple(sorted(m1[1:] + m2[1:])), -1
        return tuple(sorted(m1 + m2)), 1

    def mul(self, p, q):
        out = {}
        if len(p) * len(q) > self.budget:
            raise PolyBudget()
        mm = self.mono_mul
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, s = mm(m1, m2)
                c = c1 * c2
                if s < 0:
                    c = -c
                v = out.get(m)
                out[m] = c if v is None else v + c
        return {m: c for m, c in out.items() if c != 0}

    @staticmethod
    def addto(p, q, k=1):
        for m, c in q.items():
            v = p.get(m, 0) + (c if k == 1 else c * k)
            if v == 0:
                p.pop(m, None)
            else:
                p[m] = v
        return p

    def of(self, node):
        memo = self.memo
        order = T.CTX.vorder
        for n in T.postorder([node]):
            if n.id in memo:
                continue
            op = n.op
            if op == 'c':
                p = {}
                if n.args[0] != 0:
                    p[()] = n.args[0]
                if n.args[1] != 0:
                    p[(-1,)] = n.args[1]
            elif op == 'v':
                p = {(order[n.id],): 1}
            elif op == '+':
                a, b = memo[n.args[0].id], memo[n.args[1].id]
                p = self.addto(dict(a), b)
            elif op == '*':
                p = self.mul(memo[n.args[0].id], memo[n.args[1].id])
            else:
                raise Unsupported('polynomial form of %s' % op)
            if len(p) > self.budget:
                raise PolyBudget()
            memo[n.id] = p
        return memo[node.id]


def divides(m, n):
    """Multiset inclusion of sorted tuples; returns the cofactor or None."""
    i = 0
    rest = []
    lm = len(m)
    if lm > len(n):
        return None
    for x in n:
        if i < lm and m[i] == x:
            i += 1
        elif i < lm and m[i] < x:
            return None
        else:
            rest.append(x)
    return tuple(rest) if i == lm else None


def lexkey(m):
    """Pure lexicographic order, older variables (small rank) bigger."""
    return tuple(-x for x in m if x >= 0)


def leading(p):
    # lex with older variables larger: compare sorted tuples; smaller first
    # rank = larger; if one is a prefix of the other the longer is larger.
    best = None
    bk = None
    for m in p:
        k = tuple(-x for x in m if x >= 0)
        if best is None or k > bk:
            best, bk = m, k
    return best


class Instances(object):
    """Choose hypothesis instances (cofactor * hypothesis) by lex reduction."""

    def __init__(self, polys, hyps, max_instances=60000, newest_first=False):
        self.P = polys
        self.rev = newest_first
        self.rules = []
        self.parents = []
        self.by_lead = {}
        self.by_var = {}
        self.max = max_instances
        for h in hyps:
            p = Polys.addto(dict(polys.of(h.lhs)), polys.of(h.rhs), -1)
            if not p:
                continue
            self.add_rule(p)

    def add_rule(self, p, parents=None):
        lm = max(p, key=lambda m: m[::-1]) if self.rev else leading(p)
        if lm is None:
            return
        body = tuple(x for x in lm if x >= 0)
        if not body:
            return          # contradictory or trivial
        i = len(self.rules)
        self.rules.append((lm, p))
        self.parents.append((i,) if parents is None else parents)
        self.by_var.setdefault(body[0], []).append(i)
        # same leading monomial as an earlier rule: their difference is a rule
        j = self.by_lead.get(lm)
        if j is None:
            self.by_lead[lm] = i
        else:
            q = self.rules[j][1]
            d = Polys.addto(dict(p), q, -Fraction(p[lm]) / q[lm])
            if d:
                self.add_rule(d, tuple(set(self.parents[i] + self.parents[j])))

    def reduce(self, goal):
        """Reduce; returns (remainder, list of (rule index, cofactor mono))."""
        work = dict(goal)
        used = {}
        rem = {}
        steps = 0
        import heapq
        heap = [(tuple(-0 if x < 0 else x for x in m), m) for m in work]
        # process monomials largest-first in lex: smallest tuple first
        heap = [(self._hk(m), m) for m in work]
        heapq.heapify(heap)
        while heap:
            _, m = heapq.heappop(heap)
            c = work.pop(m, None)
            if c is None:
                continue
            hit = None
            seen = set()
            for x in m:
                if x in seen:
                    continue
                seen.add(x)
                for i in self.by_var.get(x, ()):
                    lm, p = self.rules[i]
                    cof = self._cof(lm, m)
                    if cof is not None:
                        hit = (i, cof)
                        break
                if hit:
                    break
            if hit is None:
                rem[m] = c
                continue
            i, cof = hit
            lm, p = self.rules[i]
            mm, s = self.P.mono_mul(cof, lm)
            # multiply the rule by k*cof so that its leading term cancels c*m
            k = Fraction(c) / (p[lm] * s)
            for o in self.parents[i]:
                used[(o, cof)] = True
            if len(used) > self.max:
                raise PolyBudget()
            for m2, c2 in p.items():
                if m2 == lm:
                    continue
                q, s2 = self.P.mono_mul(cof, m2)
                d = -k * c2 * s2
                v = work.get(q)
                if v is None:
                    if q in rem:
                        v = rem[q] + d
                        if v == 0:
                            del rem[q]
                        else:
                            rem[q] = v
                        continue
                    work[q] = d
                    heapq.heappush(heap, (self._hk(q), q))
                else:
                    v += d
                    if v == 0:
                        del work[q]
                    else:
                        work[q] = v
        return rem, list(used)

    def _hk(self, m):
        # largest monomial first: older (small) ranks first, longer first
        if self.rev:
            return tuple(-x for x in m[::-1] if x >= 0) + (1 << 60,)
        return tuple(x for x in m if x >= 0) + (1 << 60,)

    def _cof(self, lm, m):
        if lm and lm[0] == -1:
            # i * body: divide by body, then multiply by -i
            body = lm[1:]
            mi = m[0] == -1 if m else False
            c = divides(body, m[1:] if mi else m)
            if c is None:
                return None
            # need cof*i*body = +-m
            return c if mi else ((-1,) + c)
        return divides(lm, m)
