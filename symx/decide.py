"""Decide goals over terms with the SMT solver."""
import random
from fractions import Fraction

from . import smt
from . import term as T
from .smt import Lower, Polys, Instances, PolyBudget, STATS
from .term import Unsupported

PRIME = 998244353
SQRTM1 = pow(3, (PRIME - 1) // 4, PRIME)

SOLVER = smt.Solver('z3-new')


def set_solver(name):
    global SOLVER
    SOLVER.stop()
    SOLVER = smt.Solver(name)


def _modeval(roots, rnd):
    """Evaluate polynomial terms in a prime field at a random point (used only
    to pick a proof strategy)."""
    val = {}
    for n in T.postorder(roots):
        op = n.op
        if op == 'c':
            a, b = Fraction(n.args[0]), Fraction(n.args[1])
            v = (a.numerator * pow(a.denominator, PRIME - 2, PRIME) +
                 SQRTM1 * b.numerator * pow(b.denominator, PRIME - 2, PRIME)) % PRIME
        elif op == 'v':
            v = rnd.randrange(1, PRIME)
        elif op == '+':
            v = (val[n.args[0].id] + val[n.args[1].id]) % PRIME
        elif op == '*':
            v = (val[n.args[0].id] * val[n.args[1].id]) % PRIME
        else:
            return None
        val[n.id] = v
    return val


class Result(object):
    def __init__(self, verdict, how, model=None, detail=''):
        self.verdict, self.how = verdict, how      # 'holds' 'refuted' 'open'
        self.model, self.detail = model, detail


def prove_eqs(pairs, pc=(), timeout=30, light=False):
    """All (a, b) in pairs are equal under hypotheses and path condition."""
    if not pairs:
        return Result('holds', 'empty')
    roots = [x for p in pairs for x in p]
    rnd = random.Random(12345)
    val = _modeval(roots, rnd)
    if val is not None:
        bad = [p for p in pairs if val[p[0].id] != val[p[1].id]]
        good = [p for p in pairs if val[p[0].id] == val[p[1].id]]
    else:
        bad, good = pairs, []
    how = []
    if good:
        r = _identity(good, timeout)
        if r.verdict != 'holds':
            return r
        how.append(r.how)
    if bad:
        r = _conditional(bad, pc, timeout, val is not None, light)
        if r.verdict != 'holds':
            return r
        how.append(r.how)
    return Result('holds', '+'.join(how))


def _identity(pairs, timeout):
    """Polynomial identities without hypotheses: raw DAG to the solver."""
    size = len(T.postorder([x for p in pairs for x in p]))
    nchunk = max(1, min(len(pairs), size // 40000))
    step = (len(pairs) + nchunk - 1) // nchunk
    for i in range(0, len(pairs), step):
        part = pairs[i:i + step]
        lo = Lower('W')
        lo.add([x for p in part for x in p])
        goal = ['(not %s)' % lo.eq(a, b) for a, b in part]
        lines = lo.lines + ['(assert (or false %s))' % ' '.join(goal),
                            '(check-sat-using (then (using-params simplify :som true :som_blowup 4294967295) smt))'
                            if SOLVER.name.startswith('z3') else '(check-sat)']
        v, _ = SOLVER.run(lines, timeout)
        if v == 'unsat':
            continue
        if v == 'sat':
            return Result('open', 'identity-sat')
        if _flat_identity(part, timeout) == 'unsat':
            continue
        return Result('open', 'identity-unknown')
    return Result('holds', 'identity')


def _flat_identity(pairs, timeout):
    """Second try: both sides flattened to sums of monomial atoms."""
    P = Polys()
    names, lines, goals = {}, [], []

    def linear(p):
        out = []
        for m, c in p.items():
            if m not in names:
                names[m] = 'm%d' % len(names)
                lines.append('(declare-const %s Real)' % names[m])
            out.append('(* %s %s)' % (smt._lit(c), names[m]))
        return '(+ 0.0 %s)' % ' '.join(out)
    try:
        for a, b in pairs:
            goals.append('(not (= %s %s))' % (linear(P.of(a)), linear(P.of(b))))
    except (PolyBudget, Unsupported):
        return 'unknown'
    v, _ = SOLVER.run(['(set-logic QF_LRA)'] + lines + ['(assert (or false %s))' % ' '.join(goals), '(check-sat)'], timeout)
    return v


def _hyps_for(roots, pc):
    idx = T.relevant_hyps(list(roots) + list(pc))
    return [T.CTX.hyps[i] for i in idx]


def _conditional(pairs, pc, timeout, polynomial, light=False):
    roots = [x for p in pairs for x in p]
    hyps = _hyps_for(roots, pc)
    eqs = [h for h in hyps if h.kind == 'eq']
    # equalities in the path condition are hypotheses as well
    pceqs = [c for c in pc if c.op == '='] + _zeros(pc)
    how = []
    if polynomial and (eqs or pceqs):
        for cuts, usedefs in _variants():
            cp, ce, tag = pairs, eqs, ''
            if cuts:
                cp, ce, defs = _apply_cuts(pairs, eqs, cuts, timeout)
                if cp is None:
                    continue
                tag = 'cut+'
                if usedefs:
                    ce = ce + defs
            r, left = _linearised(cp, ce, pceqs, timeout)
            if len(left) < len(pairs):
                how.append(tag + 'lra')
            if not left:
                return Result('holds', '+'.join(sorted(set(how))))
            pairs = [pairs[i] for i in left]
        if not pc and not any(h.kind == 'bool' for h in hyps) or r.how == 'lra':
            return r
        if light:
            return Result('open', 'light')
    if not polynomial:
        left = _with_bits(pairs, eqs, pceqs, timeout)
        if len(left) < len(pairs):
            how.append('bits')
        pairs = [pairs[i] for i in left]
        if not pairs:
            return Result('holds', '+'.join(sorted(set(how))))
    # direct query (nonlinear real arithmetic with ite/comparisons)
    r = direct([T.eq(a, b) for a, b in pairs], pc, timeout)
    if r.verdict == 'holds':
        r.how = '+'.join(sorted(set(how + [r.how])))
    return r


def _with_bits(pairs, eqs, pceqs, timeout):
    """Goals with if-then-else: polynomials in 0/1 variables (see T.bits).
    Returns the indices of the goals not proved this way."""
    every = list(range(len(pairs)))
    roots = [x for p in pairs for x in p] + [x for h in eqs for x in (h.lhs, h.rhs)]
    if not any(n.op == 'ite' for n in T.postorder(roots)):
        return every
    try:
        m, facts = T.bits(roots + [x for c in pceqs for x in c.args])
        ps = [(m[a.id], m[b.id]) for a, b in pairs]
        hs = [_H(m[h.lhs.id], m[h.rhs.id], h.tag) for h in eqs]
        pq = [T.eq(m[c.args[0].id], m[c.args[1].id]) for c in pceqs]
        hs += [_H(a, b, 'bit') for a, b in facts]
        hs = [h for h in hs if h.lhs is not h.rhs]
        pq = [c for c in pq if c.op == '=']
        r, left = _linearised(ps, hs, pq, min(timeout, 10))
    except (Unsupported, PolyBudget):
        return every
    return left


def _variants():
    """Cut sets to try (see _apply_cuts), the uncut goal last."""
    groups = T.CTX.aux.get('cuts') or []
    out = []
    for use in [groups] + ([[g] for g in reversed(groups)] if len(groups) > 1 else []):
        cuts = {}
        for g in use:
            cuts.update(g)
        if cuts:
            out += [(cuts, False), (cuts, True)]
    return out + [(None, False)]


class _H(object):
    kind = 'eq'

    def __init__(self, lhs, rhs, tag):
        self.lhs, self.rhs, self.tag = lhs, rhs, tag


def _apply_cuts(pairs, eqs, cuts, timeout):
    """Name subterms (marked by the harness) by fresh variables.

    Proving the renamed goal from the renamed hypotheses proves the original:
    the fresh variable may take the value of the subterm it stands for.
    Subterms that are only equal as polynomials are renamed too, after the
    solver has shown that they are identical.  cuts: node id -> (node, var).
    """
    roots = [x for p in pairs for x in p] + [x for h in eqs for x in (h.lhs, h.rhs)]
    name = {}
    val = _modeval(roots + [n for n, _ in cuts.values()], random.Random(4711))
    byval = {}
    for n, v in cuts.values():
        name[n.id] = v
        if val is not None:
            byval.setdefault(val[n.id], (n, v))
    same = []
    if val is not None:
        for n in T.postorder(roots):
            if n.op in '+*' and n.id not in name and val[n.id] in byval:
                same.append((n,) + byval[val[n.id]])
        if same and _identity([(n, m) for n, m, _ in same], timeout).verdict == 'holds':
            for n, _, v in same:
                name[n.id] = v
    out = {}

    def walk(root):
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in out:
                stack.pop()
                continue
            if n.id in name:
                out[n.id] = name[n.id]
                stack.pop()
                continue
            todo = [k for k in n.kids if k.id not in out]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if n.op == '+':
                out[n.id] = T.add(out[n.args[0].id], out[n.args[1].id])
            elif n.op == '*':
                out[n.id] = T.mul(out[n.args[0].id], out[n.args[1].id])
            elif n.kids:
                raise Unsupported('cut through %s' % n.op)
            else:
                out[n.id] = n
        return out[root.id]
    try:
        np_ = [(walk(a), walk(b)) for a, b in pairs]
        ne = [_H(walk(h.lhs), walk(h.rhs), h.tag) for h in eqs]
        defs = []
        for n, v in cuts.values():
            if n.op in '+*':
                f = T.add if n.op == '+' else T.mul
                defs.append(_H(f(walk(n.args[0]), walk(n.args[1])), v, 'cut'))
    except Unsupported:
        return None, None, None
    return np_, [h for h in ne if h.lhs is not h.rhs], defs


_ZEROS = {}


def _zeros(pc):
    """Non-negative variables that the path condition forces to zero."""
    key = tuple(c.id for c in pc)
    if _ZEROS.get('ctx') is not T.CTX:
        _ZEROS.clear()
        _ZEROS['ctx'] = T.CTX
    if key in _ZEROS:
        return _ZEROS[key]
    out = []
    vs = list(T.variables(pc)) if pc else []
    ids = {v.id for v in vs}
    defs = [h for h in T.CTX.hyps if h.kind == 'eq' and h.tag in ('inv', 'sqrt')]
    new = True
    used = []
    while new:
        new = [h for h in defs if h not in used
               and any(v.id in ids and v.args[0].startswith(('inv', 'sqrt'))
                       for v in T.variables([h.lhs, h.rhs]))]
        used += new
        for h in new:
            for v in T.variables([h.lhs, h.rhs]):
                if v.id not in ids:
                    ids.add(v.id)
                    vs.append(v)
    hyps = [h for h in T.CTX.hyps if h.kind == 'bool'
            and all(v.id in ids for v in T.variables([h.lhs]))]
    for v in vs:
        if not T.CTX.aux.get(('nonneg', v.id)):
            continue
        lo = Lower('R')
        lo.add(list(pc) + [h.lhs for h in hyps] + [v] + [x for h in used for x in (h.lhs, h.rhs)])
        lines = list(lo.lines) + ['(assert %s)' % lo.names[x.id] for x in
                                  list(pc) + [h.lhs for h in hyps]]
        lines += ['(assert %s)' % lo.eq(h.lhs, h.rhs) for h in used]
        lines += ['(assert (> %s 0.0))' % lo.names[v.id][0], '(check-sat)']
        if SOLVER.run(lines, 3)[0] == 'unsat':
            out.append(T.eq(v, T.ZERO))
    _ZEROS[key] = out
    return out


def _block(v):
    return v.args[0].split('[')[0]


def _cone(pairs, eqs):
    """Hypotheses whose newest variables (transitively) occur in the goal."""
    order = T.CTX.vorder
    seen = {_block(v) for v in T.variables([x for p in pairs for x in p])}
    left = []
    for h in eqs:
        vs = T.variables([h.lhs, h.rhs])
        if vs:
            new = max(vs, key=lambda v: order[v.id])
            left.append((h, _block(new), {_block(v) for v in vs}))
    out, changed = set(), True
    while changed:
        changed = False
        rest = []
        for t in left:
            if t[1] in seen:
                out.add(id(t[0]))
                seen |= t[2]
                changed = True
            else:
                rest.append(t)
        left = rest
    return [h for h in eqs if id(h) in out]


# second halves of the unitarity of square factors
COMPLETE = ('qr:qq^H=1', 'svd:uu^H=1', 'svd:v^Hv=1')


def _linearised(pairs, eqs, pceqs, timeout):
    """Portfolio of instance choices; the solver decides each time.  Returns
    the last result and the indices of the pairs not proved."""
    cone = _cone(pairs, eqs)
    sets = []
    for hs in (cone, eqs):
        for h2 in (hs, [h for h in hs if h.tag not in COMPLETE]):
            if not any(len(h2) == len(x) for x in sets):
                sets.append(h2)
    P = Polys()
    goals, left, r = {}, [], Result('open', 'poly-budget')
    over = []
    for i, (a, b) in enumerate(pairs):
        try:
            g = Polys.addto(dict(P.of(a)), P.of(b), -1)
        except (PolyBudget, Unsupported):
            over.append(i)
            continue
        if g:
            goals[i] = g
            left.append(i)
    if not left:
        r = Result('open', 'poly-budget') if over else Result('holds', 'lra')
    for hs in sets:
        for order in ('old', 'decomp', 'new', 'undo'):
            if not left or order == 'undo' and not _trailing_qr(hs):
                continue
            r, left = _linearised1(P, goals, left, hs, pceqs, timeout, order)
            if r.how == 'poly-budget' and order == 'old':
                break           # the other orders are as big
            if r.how == 'lra' and r.verdict == 'open':
                return r, sorted(left + over)
    if over and not left:
        r = Result('open', 'poly-budget')
    return r, sorted(left + over)


def _trailing_qr(eqs):
    """Factorisations a = qr made after the last SVD (e.g. by norm())."""
    order = T.CTX.vorder

    def newest(h):
        return max([order[v.id] for v in T.variables([h.lhs, h.rhs])] or [-1])
    last = max([newest(h) for h in eqs if h.tag.startswith('svd')] or [-1])
    if last < 0:
        return []
    return [h for h in eqs if h.tag == 'qr:a=qr' and newest(h) > last]


def _linearised1(P, goals, todo, eqs, pceqs, timeout, order):
    hs = list(eqs)
    if order == 'new':
        hs.reverse()
    elif order == 'decomp':
        hs.sort(key=lambda h: 1 if '=1' in h.tag or 'canonical' in h.tag else 0)
    undo = None
    try:
        if order == 'undo':
            tail = _trailing_qr(hs)
            undo = Instances(P, tail, newest_first=True)
            hs = [h for h in hs if h not in tail]
        inst = Instances(P, hs)
        for c in pceqs:
            p = Polys.addto(dict(P.of(c.args[0])), P.of(c.args[1]), -1)
            if p:
                inst.add_rule(p)
    except (PolyBudget, Unsupported) as e:
        return Result('open', 'poly-budget', detail=str(e)), todo
    left, done = [], []
    res = Result('holds', 'lra')
    for k in todo:
        try:
            pre = []
            rem = goals[k]
            if undo is not None:
                rem, pre = undo.reduce(rem)
            rem, u = inst.reduce(rem)
        except (PolyBudget, Unsupported) as e:
            left.append(k)
            res = Result('open', 'poly-budget', detail=str(e))
            continue
        if rem:
            left.append(k)
            res = Result('open', 'no-derivation', detail='remainder with %d terms' % len(rem))
            continue
        done.append((k, [(inst, i, cof) for i, cof in u] + [(undo, i, cof) for i, cof in pre]))
    # the solver decides, goal group by goal group
    i = 0
    while i < len(done):
        group, inst_set, n, ks = [], {}, 0, []
        while i < len(done) and (not group or n + len(done[i][1]) < 4000):
            group.append(goals[done[i][0]])
            ks.append(done[i][0])
            for k in done[i][1]:
                inst_set[k] = True
            n = len(inst_set)
            i += 1
        v = _lra(P, inst, group, list(inst_set), timeout)
        if v != 'unsat':
            left += ks
            res = Result('open', 'lra', detail=v)
    return res, left


def _lra(P, inst, goals, used, timeout):
    """Linear query over monomial atoms: instances => goals."""
    names = {}
    lines = []

    def atom(m):
        s = names.get(m)
        if s is None:
            if m == ():
                return '1.0'
            s = 'm%d' % len(names)
            names[m] = s
            lines.append('(declare-const %s Real)' % s)
        return s

    def linear(p):
        terms = []
        for m, c in p.items():
            a = atom(m)
            if c == 1:
                terms.append(a)
            elif a == '1.0':
                terms.append(smt._lit(c))
            else:
                terms.append('(* %s %s)' % (smt._lit(c), a))
        if not terms:
            return '0.0'
        return terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)

    asserts = []
    for src, i, cof in used:
        p = src.rules[i][1]
        q = P.mul({cof: 1}, p)
        asserts.append('(assert (= %s 0.0))' % linear(q))
    STATS['lra_instances'] += len(used)
    gs = ['(not (= %s 0.0))' % linear(g) for g in goals]
    asserts.append('(assert (or false %s))' % ' '.join(gs))
    v, _ = SOLVER.run(['(set-logic QF_LRA)'] + lines + asserts + ['(check-sat)'],
                      timeout)
    return v


def direct(goals, pc, timeout, want_model=True, extra_vars=()):
    """pc and hyps |= and(goals), by one query in real arithmetic."""
    neg = T.not_(T.and_(*goals))
    hyps = _hyps_for([neg], pc)
    roots = [neg] + list(pc) + [x for h in hyps for x in (h.lhs, h.rhs)
                                if x is not None]
    cplx = any(not v.real for v in T.variables(roots))
    lo = Lower('R')
    lo.add(roots)
    lines = list(lo.lines)
    for h in hyps:
        if h.kind == 'eq':
            lines.append('(assert %s)' % lo.eq(h.lhs, h.rhs))
        else:
            lines.append('(assert %s)' % lo.names[h.lhs.id])
    for c in pc:
        lines.append('(assert %s)' % lo.names[c.id])
    lines.append('(assert %s)' % lo.names[neg.id])
    lines.append('(check-sat)')
    want = [Lower._q(s) for s in lo.decl]
    v, model = SOLVER.run(lines, timeout, want if want_model else ())
    if v == 'unsat':
        return Result('holds', 'nra')
    if v == 'sat':
        return Result('refuted', 'nra', decode_model(lo, model))
    return Result('open', 'nra-unknown')


def small(node, pc, timeout=5):
    """abs(y) <= c holds because y = 0 can be proved."""
    if node.op != '<=' or node.args[1].op != 'c' or node.args[1].args[0] < 0:
        return False
    x = T.CTX.aux.get(('sqrtof', node.args[0].id))
    if x is None or x.op != '*' or T.conj(x.args[0]) is not x.args[1]:
        return False
    return prove_eqs([(x.args[0], T.ZERO)], tuple(pc), timeout, light=True).verdict == 'holds'


def roots(node, pc, timeout=10):
    """Identify square roots with registered non-negative terms."""
    terms = T.CTX.aux.get('roots')
    if not terms:
        return
    done = T.CTX.aux.setdefault('roots done', set())
    for v in T.variables([node]):
        x = T.CTX.aux.get(('sqrtof', v.id))
        if x is None or v.id in done:
            continue
        done.add(v.id)
        for y in terms:
            if prove_eqs([(x, T.mul(y, y))], tuple(pc), timeout, light=True).verdict == 'holds':
                T.hyp_eq(v, y, 'root', v)
                break


def sign(node, pc, timeout=10):
    """c <= x with c <= 0 because x equals a registered non-negative term."""
    terms = T.CTX.aux.get('nonneg terms')
    if not terms:
        return False
    if node.op == 'and':
        return all(k is T.TRUE or sign(k, pc, timeout) for k in node.args)
    if node.op != '<=' or node.args[0].op != 'c' or node.args[0].args[0] > 0:
        return False
    x = node.args[1]
    return any(t is x or prove_eqs([(x, t)], tuple(pc), timeout, light=True).verdict == 'holds'
               for t in terms)


def feasible(pc, timeout=10):
    """Is the path condition satisfiable?  'sat' 'unsat' 'unknown'."""
    if any(c is T.FALSE for c in pc):
        return 'unsat'
    r = direct([T.FALSE], pc, timeout, want_model=False)
    return {'holds': 'unsat', 'refuted': 'sat', 'open': 'unknown'}[r.verdict]


def decode_model(lo, model):
    if model is None:
        return None
    out = {}
    for sn, (name, sort) in lo.decl.items():
        key = sn.replace('|', ':')
        v = model.get('|%s|' % key)
        if v is None:
            continue
        if sort == 'Bool':
            out[name] = bool(v)
        elif sn.startswith('re|'):
            out[name] = out.get(name, 0) + complex(float(v), 0)
        elif sn.startswith('im|'):
            out[name] = out.get(name, 0) + complex(0, float(v))
        else:
            out[name] = float(v)
    return out


def counterexample(pairs, pc=(), timeout=15):
    """Concrete values refuting one of the equalities (single entry queries)."""
    for a, b in pairs[:4]:
        r = direct([T.eq(a, b)], pc, timeout)
        if r.verdict == 'refuted' and r.model is not None:
            return r.model
    return None
