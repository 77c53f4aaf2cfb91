"""Hash-consed terms over the complex numbers (exact, no floating point).

A term denotes a complex number.  Leaves are constants in Q(i) and variables;
a complex variable ``z`` has a partner variable ``conj(z)``.  Conjugation is
pushed to the leaves.  Boolean terms (comparisons and connectives) live in the
same DAG.

``sqrt`` and ``inv`` introduce auxiliary variables together with their defining
hypotheses; so do the contract stubs (QR, SVD, ...), see ``Ctx``.
"""
from fractions import Fraction
import math


class Unsupported(Exception):
    """The engine cannot encode this operation (never a property verdict)."""


def _frac(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


_SQRT_CACHE = {}


def rationalise(x):
    """Float -> exact value as (Fraction q, int n): the number q * sqrt(n).

    The code under test computes with doubles; the encoding is over the reals.
    A double that is within 1e-13 (relative) of a rational with denominator
    <= 4096, or of a square root of such a rational, stands for that number;
    every other double stands for itself.
    """
    if isinstance(x, int):
        return x, 1
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float constant')
    if x == int(x) and abs(x) < 1e15:
        return int(x), 1
    key = x
    if key in _SQRT_CACHE:
        return _SQRT_CACHE[key]
    f = Fraction(x)
    c = f.limit_denominator(4096)
    if c != 0 and abs(c - f) <= abs(f) * Fraction(1, 10**13):
        res = (_frac(c), 1)
    else:
        sq = (f * f)
        c = sq.limit_denominator(4096)
        if c != 0 and abs(c - sq) <= sq * Fraction(1, 10**13):
            # sqrt(p/q) = sqrt(p*q)/q
            n = c.numerator * c.denominator
            k = 1
            d = 2
            m = n
            while d * d <= m:
                while m % (d * d) == 0:
                    m //= d * d
                    k *= d
                d += 1
            q = Fraction(k, c.denominator)
            res = (_frac(-q if x < 0 else q), m)
        else:
            res = (_frac(f), 1)
    _SQRT_CACHE[key] = res
    return res


class Node(object):
    __slots__ = ('op', 'args', 'id', 'real', '_conj', 'kids')

    def __repr__(self):
        return show(self)


class Ctx(object):
    """One symbolic execution context: consing table, variables, hypotheses."""

    def __init__(self):
        self.table = {}
        self.nodes = 0
        self.vars = {}          # name -> node
        self.hyps = []          # list of Hyp
        self.hyps_of = {}       # var id -> list of hyp indices
        self.eager = []         # hypotheses that are relevant to every query
        self.aux = {}           # ('sqrt', id) -> var
        self.vorder = {}        # var node id -> age rank
        self.counter = 0


class Hyp(object):
    """A hypothesis: ``lhs == rhs`` (complex) or a boolean term."""
    __slots__ = ('kind', 'lhs', 'rhs', 'tag', 'trigger')

    def __init__(self, kind, lhs, rhs, tag, trigger):
        self.kind, self.lhs, self.rhs = kind, lhs, rhs
        self.tag, self.trigger = tag, trigger


CTX = Ctx()


def reset():
    global CTX, ZERO, ONE, MINUS, IMAG, TRUE, FALSE, HALF
    CTX = Ctx()
    ZERO, ONE, MINUS = const(0), const(1), const(-1)
    IMAG = const(0, 1)
    HALF = const(Fraction(1, 2))
    TRUE, FALSE = _mk('true', (), True), _mk('false', (), True)
    return CTX


def _mk(op, args, real, kids=()):
    key = (op,) + tuple(a.id if isinstance(a, Node) else a for a in args)
    t = CTX.table
    n = t.get(key)
    if n is not None:
        return n
    n = Node()
    n.op, n.args, n.real, n._conj = op, args, real, None
    n.id = CTX.nodes
    CTX.nodes += 1
    n.kids = kids
    t[key] = n
    return n


def const(re, im=0):
    return _mk('c', (_frac(re), _frac(im)), im == 0)


def from_number(x):
    """Python/numpy number -> node."""
    if isinstance(x, Node):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, complex) or hasattr(x, 'imag') and getattr(x, 'imag', 0) != 0:
        return add(from_number(float(x.real)),
                   mul(IMAG, from_number(float(x.imag))))
    if hasattr(x, 'dtype') and getattr(x.dtype, 'kind', '') in 'iub':
        return const(int(x))
    x = float(x.real if hasattr(x, 'real') else x)
    if x != x:
        return var('NaN', True)
    q, n = rationalise(x)
    if n == 1:
        return const(q)
    return mul(const(q), sqrt(const(n)))


def var(name, real=True):
    if name in CTX.vars:
        return CTX.vars[name]
    n = _mk('v', (name,), real)
    CTX.vars[name] = n
    CTX.vorder[n.id] = len(CTX.vorder)
    if real:
        n._conj = n
    else:
        m = _mk('v', (name + '~',), False)
        CTX.vars[name + '~'] = m
        CTX.vorder[m.id] = len(CTX.vorder)
        n._conj, m._conj = m, n
    return n


def fresh(prefix, real=True):
    CTX.counter += 1
    return var('%s!%d' % (prefix, CTX.counter), real)


def is_const(n):
    return n.op == 'c'


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] + b.args[0], a.args[1] + b.args[1])
        if a is ZERO:
            return b
    elif b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    real = a.real and b.real or a._conj is b and b is not None
    n = _mk('+', (a, b), real, (a, b))
    if not n.real and conj(n) is n:
        n.real = True
    return n


def mul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            p, q = a.args
            r, s = b.args
            return const(p * r - q * s, p * s + q * r)
        if a is ZERO:
            return ZERO
        if a is ONE:
            return b
    elif b.op == 'c':
        if b is ZERO:
            return ZERO
        if b is ONE:
            return a
    if a is b and a.op == 'v':
        # sqrt(x) * sqrt(x) = x
        key = CTX.aux.get(('sqrtof', a.id))
        if key is not None:
            return key
    if a.op == 'v' and b.op == 'v':
        if CTX.aux.get(('invof', a.id)) is b or CTX.aux.get(('invof', b.id)) is a:
            return ONE
    if a.id > b.id:
        a, b = b, a
    # constants first, folded together
    if b.op == '*' and a.op == 'c' and b.args[0].op == 'c':
        return mul(mul(a, b.args[0]), b.args[1])
    if a.op == '*' and b.op == 'c' and a.args[0].op == 'c':
        return mul(mul(b, a.args[0]), a.args[1])
    real = a.real and b.real
    n = _mk('*', (a, b), real, (a, b))
    if not n.real and conj(n) is n:
        n.real = True
    return n


def neg(a):
    return mul(MINUS, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def conj(n):
    if n.real:
        return n
    c = n._conj
    if c is not None:
        return c
    op = n.op
    if op == 'c':
        c = const(n.args[0], -n.args[1])
    elif op in '+*':
        a, b = conj(n.args[0]), conj(n.args[1])
        if a.id > b.id:
            a, b = b, a
        c = _mk(op, (a, b), False, (a, b))
    elif op == 'ite':
        c = ite(n.args[0], conj(n.args[1]), conj(n.args[2]))
    else:
        raise Unsupported('conj of %s' % op)
    n._conj = c
    c._conj = n
    return c


def mark_real(n):
    """Record that ``n`` is mathematically real (it equals its conjugate)."""
    n.real = True
    return n


def re(n):
    if n.real:
        return n
    return mark_real(mul(HALF, add(n, conj(n))))


def im(n):
    if n.real:
        return ZERO
    if n.op == 'c':
        return const(n.args[1])
    return mark_real(mul(const(0, Fraction(-1, 2)), sub(n, conj(n))))


def _isqrt(x):
    """Exact square root of a non-negative rational, or None."""
    x = Fraction(x)
    if x < 0:
        return None
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return _frac(Fraction(a, b))
    return None


def _monomial(x):
    """(coefficient, {variable: power}) if x is a monomial in variables that
    are marked as positive scale factors."""
    if not CTX.aux.get('scales') or x.op in 'cv':
        return None
    marks = CTX.aux['scales']
    todo, seen = [x], set()
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if len(seen) > 3000 or n.op not in ('c', 'v', '+', '*'):
            return None
        if n.op == 'v' and n.id not in marks:
            return None
        todo.extend(n.kids)
    from .smt import Polys
    p = Polys().of(x)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if -1 in m or c <= 0:
        return None
    rank = {CTX.vorder[i]: v for i, v in marks.items()}
    out = {}
    for r in m:
        v = rank[r]
        out[v.id] = (v, out.get(v.id, (v, 0))[1] + 1)
    # v * (1/v) = 1
    for i, (v, k) in list(out.items()):
        w = CTX.aux.get(('inv', v.id))
        if w is not None and w.id in out:
            j = min(k, out[w.id][1])
            out[i] = (v, k - j)
            out[w.id] = (w, out[w.id][1] - j)
    return c, [(v, k) for v, k in out.values() if k]


def _power(v, k):
    r = ONE
    for _ in range(k):
        r = mul(r, v)
    return r


def mark_scale(v):
    CTX.aux.setdefault('scales', {})[v.id] = v


def sqrt(x):
    """Non-negative square root of a (real, non-negative) term."""
    mono = _monomial(x)
    if mono is not None:
        c, vs = mono
        if all(k % 2 == 0 for _, k in vs):
            r = sqrt(const(c))
            for v, k in vs:
                r = mul(r, _power(v, k // 2))
            return r
    if x.op == 'c':
        if x.args[1] != 0:
            raise Unsupported('sqrt of complex constant')
        r = _isqrt(x.args[0])
        if r is not None:
            return const(r)
        if x.args[0] < 0:
            raise Unsupported('sqrt of negative constant')
    # sqrt(y*y) with y known >= 0
    if x.op == '*' and x.args[0] is x.args[1] and is_nonneg(x.args[0]):
        return x.args[0]
    if not x.real:
        raise Unsupported('sqrt of a non-real term')
    key = ('sqrt', x.id)
    s = CTX.aux.get(key)
    if s is not None:
        return s
    s = fresh('sqrt')
    CTX.aux[key] = s
    CTX.aux[('sqrtof', s.id)] = x
    CTX.aux[('nonneg', s.id)] = True
    hyp_eq(_mk('*', (s, s), True, (s, s)), x, 'sqrt', s)
    hyp_bool(le(ZERO, s), 'sqrt>=0', s)
    return s


def is_nonneg(n):
    if n.op == 'c':
        return n.args[1] == 0 and n.args[0] >= 0
    if CTX.aux.get(('nonneg', n.id)):
        return True
    if n.op == '+':
        return is_nonneg(n.args[0]) and is_nonneg(n.args[1])
    if n.op == '*':
        a, b = n.args
        return conj(a) is b or (is_nonneg(a) and is_nonneg(b))
    return False


def absolute(x):
    if x.op == 'c' and x.args[1] == 0:
        return const(abs(x.args[0]))
    if x.real and is_nonneg(x):
        return x
    return sqrt(mul(x, conj(x)))


def inv(x):
    if x.op == 'c':
        a, b = x.args
        d = Fraction(a * a + b * b)
        if d == 0:
            raise ZeroDivisionError('symbolic division by zero')
        return const(_frac(Fraction(a) / d), _frac(Fraction(-b) / d))
    if x.op == '*' and x.args[0].op == 'c':
        return mul(inv(x.args[0]), inv(x.args[1]))
    if x.op == 'v':
        s = CTX.aux.get(('invsrc', x.id))
        if s is not None:
            return s
    else:
        mono = _monomial(x)
        if mono is not None:
            c, vs = mono
            r = inv(const(c))
            for v, k in vs:
                r = mul(r, _power(inv(v), k))
            return r
    key = ('inv', x.id)
    w = CTX.aux.get(key)
    if w is not None:
        return w
    w = fresh('inv', x.real)
    CTX.aux[key] = w
    CTX.aux[('invsrc', w.id)] = x
    if x.op == 'v' and x.id in CTX.aux.get('scales', ()):
        mark_scale(w)
    if x.op == 'v':
        CTX.aux[('invof', w.id)] = x
    if is_nonneg(x):
        CTX.aux[('nonneg', w.id)] = True
        hyp_bool(le(ZERO, w), 'inv>=0', w)
    hyp_eq(_mk('*', (x, w) if x.id < w.id else (w, x), x.real, (x, w)), ONE, 'inv', w)
    if not x.real:
        cx, cw = conj(x), conj(w)
        CTX.aux[('inv', cx.id)] = cw
        CTX.aux[('invsrc', cw.id)] = cx
        if cx.op == 'v':
            CTX.aux[('invof', cw.id)] = cx
        hyp_eq(_mk('*', (cx, cw) if cx.id < cw.id else (cw, cx), False, (cx, cw)),
               ONE, 'inv', cw)
    return w


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.real and b.real, (c, a, b))


# ---- booleans -------------------------------------------------------------
def _need_real(*ns):
    for n in ns:
        if not n.real:
            raise Unsupported('order comparison of a term not known to be real')


def le(a, b):
    _need_real(a, b)
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return _mk('<=', (a, b), True, (a, b))


def lt(a, b):
    return not_(le(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('=', (a, b), True, (a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), True, (a,))


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE and x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), True, tuple(out))


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def bvar(name):
    return _mk('b', (name,), True)


def ivar(name):
    """Integer-sorted variable (used through real terms: it is real)."""
    n = var(name, True)
    CTX.aux[('int', n.id)] = True
    return n


def is_integer(n):
    """The term has integer values (syntactically)."""
    if n.op == 'c':
        return n.args[1] == 0 and Fraction(n.args[0]).denominator == 1
    if n.op == 'v':
        return bool(CTX.aux.get(('int', n.id)))
    if n.op in '+*':
        return is_integer(n.args[0]) and is_integer(n.args[1])
    if n.op == 'ite':
        return is_integer(n.args[1]) and is_integer(n.args[2])
    return False


def is_nan(n):
    """Condition under which a term is a NaN (explicitly assigned ones)."""
    if n.op == 'v':
        return TRUE if n.args[0] == 'NaN' else FALSE
    if n.op == 'ite':
        c, a, b = n.args
        a, b = is_nan(a), is_nan(b)
        if a is b:
            return a
        return or_(and_(c, a), and_(not_(c), b))
    if n.op in '+*':
        return or_(is_nan(n.args[0]), is_nan(n.args[1]))
    return FALSE


def bits(roots):
    """Rewrite if-then-else over polynomials in 0/1 variables, one variable
    per atomic condition.  Returns (map node id -> node, facts), facts being
    equalities that hold for these variables."""
    out, atom, facts = {}, {}, []

    def one(c):
        if c.id not in atom:
            v = var('bit!%d' % c.id, True)
            atom[c.id] = v
            facts.append((mul(v, v), v))
            key = None
            if c.op == '=':
                a, b = c.args
                if b.op == 'v':
                    a, b = b, a
                if a.op == 'v' and b.op == 'c':
                    key = a.id
            if key is not None:
                for w in same.setdefault(key, []):
                    facts.append((mul(v, w), ZERO))
                same[key].append(v)
        return atom[c.id]
    same = {}
    for n in postorder(roots):
        op = n.op
        if op in ('c', 'v'):
            r = n
        elif op == 'true':
            r = ONE
        elif op == 'false':
            r = ZERO
        elif op in ('<=', '=', 'b'):
            r = one(n)
        elif op == 'not':
            r = add(ONE, mul(MINUS, out[n.args[0].id]))
        elif op == 'and':
            r = ONE
            for k in n.args:
                r = mul(r, out[k.id])
        elif op == '+':
            r = add(out[n.args[0].id], out[n.args[1].id])
        elif op == '*':
            r = mul(out[n.args[0].id], out[n.args[1].id])
        elif op == 'ite':
            c, a, b = [out[k.id] for k in n.args]
            r = add(b, mul(c, add(a, mul(MINUS, b))))
        else:
            raise Unsupported('bits of %s' % op)
        out[n.id] = r
    return out, facts


# ---- hypotheses -----------------------------------------------------------
def hyp_eq(lhs, rhs, tag, trigger=None):
    if lhs is rhs:
        return
    _addhyp(Hyp('eq', lhs, rhs, tag, trigger))
    if not (lhs.real and rhs.real):
        cl, cr = conj(lhs), conj(rhs)
        if not (cl is lhs and cr is rhs):
            _addhyp(Hyp('eq', cl, cr, tag, None if trigger is None else conj(trigger)))


def hyp_bool(b, tag, trigger=None):
    if b is TRUE:
        return
    _addhyp(Hyp('bool', b, None, tag, trigger))


def _addhyp(h):
    i = len(CTX.hyps)
    CTX.hyps.append(h)
    if h.trigger is None:
        CTX.eager.append(i)
    else:
        CTX.hyps_of.setdefault(h.trigger.id, []).append(i)
        CTX.hyps_of.setdefault(conj(h.trigger).id, []).append(i)


# ---- traversal ------------------------------------------------------------
def postorder(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for k in n.kids:
            if k.id not in seen:
                stack.append((k, False))
    return out


def variables(roots):
    return [n for n in postorder(roots) if n.op == 'v']


def relevant_hyps(roots, include_eager=True):
    """Indices of hypotheses in the cone of influence of ``roots``."""
    picked = set()
    seen = set()
    todo = list(roots)
    if include_eager:
        for i in CTX.eager:
            picked.add(i)
            h = CTX.hyps[i]
            todo.append(h.lhs)
            if h.rhs is not None:
                todo.append(h.rhs)
    while todo:
        stack, todo = todo, []
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            stack.extend(n.kids)
            for i in CTX.hyps_of.get(n.id, ()):
                if i not in picked:
                    picked.add(i)
                    h = CTX.hyps[i]
                    todo.append(h.lhs)
                    if h.rhs is not None:
                        todo.append(h.rhs)
    return sorted(picked)


def show(n, depth=0):
    if n.op == 'c':
        a, b = n.args
        return str(a) if b == 0 else '(%s+%si)' % (a, b)
    if n.op in ('v', 'b'):
        return n.args[0]
    if depth > 6:
        return '...'
    return '(%s %s)' % (n.op, ' '.join(show(k, depth + 1) for k in n.kids))


def evaluate(roots, values, cache=None):
    """Numeric evaluation (complex floats); values: var name -> complex."""
    val = {} if cache is None else cache
    for n in postorder(roots):
        if n.id in val:
            continue
        op = n.op
        if op == 'c':
            v = complex(float(n.args[0]), float(n.args[1]))
        elif op == 'v':
            v = values[n.args[0]]
        elif op == '+':
            v = val[n.args[0].id] + val[n.args[1].id]
        elif op == '*':
            v = val[n.args[0].id] * val[n.args[1].id]
        elif op == 'ite':
            v = val[n.args[1].id] if val[n.args[0].id] else val[n.args[2].id]
        elif op == 'true':
            v = True
        elif op == 'false':
            v = False
        elif op == 'not':
            v = not val[n.args[0].id]
        elif op == 'and':
            v = all(val[k.id] for k in n.args)
        elif op == '<=':
            v = val[n.args[0].id].real <= val[n.args[1].id].real
        elif op == '=':
            v = val[n.args[0].id] == val[n.args[1].id]
        elif op == 'b':
            v = values[n.args[0]]
        else:
            raise Unsupported(op)
        val[n.id] = v
    return val


reset()
