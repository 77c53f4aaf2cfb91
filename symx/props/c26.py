"""C26: model Hamiltonians."""
import itertools

import numpy as np

BOUNDS = {'chain': '2..5 spins for the XY model (thorough: 7), 2..4 for arbitrary nearest-neighbour terms (thorough: 6)',
          'local dimension': '1..3', 'terms': 'arbitrary real or complex operators of rank 1..4, '
          'as matrix product operators and as plain square matrices',
          'parameter gamma': 'any real number (energy: between -1 and 1, as in the reference)',
          'ground state energy': 'formula for 2 and 6 spins up to 1e-9; spectrum of the operator for 2 spins'}
OUTSIDE = ('longer chains, larger local dimensions; that the formula is the smallest eigenvalue for 6 or more '
           'spins (the analytic result the code cites); rounding of sin() and of square roots')

X = np.array([[0, 1], [1, 0]])
Y = np.array([[0, -1j], [1j, 0]])
I2 = np.eye(2)


def _physics(env):
    import mpnum.utils.physics as physics
    return physics


def _full(env, op, sites, n, d):
    """Operator on `sites` of n d-dimensional spins as a (d**n, d**n) matrix;
    op has legs (out0, out1, ..., in0, in1, ...)."""
    op = env.raw(op)
    k = len(sites)
    rest = [i for i in range(n) if i not in sites]
    t = op
    for _ in rest:
        t = env.outer(t, np.eye(d))
    # legs: outs of op, ins of op, then (out, in) for every other site
    perm_out, perm_in = [0] * n, [0] * n
    for j, s in enumerate(sites):
        perm_out[s], perm_in[s] = j, k + j
    for j, s in enumerate(rest):
        perm_out[s], perm_in[s] = 2 * k + 2 * j, 2 * k + 2 * j + 1
    return t.transpose(perm_out + perm_in).reshape((d**n, d**n))


def _matrix(env, mpo, d):
    """Dense matrix of a matrix product operator."""
    t = env.contract(list(mpo.lt))[0, ..., 0]
    n = len(mpo)
    return t.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2))).reshape((d**n, d**n))


def _dense(env, m):
    return m.toarray() if hasattr(m, 'toarray') else m


def _xy(env, n, gamma):
    """Definition of the cyclic XY model."""
    want = 0
    for i in range(n):
        j = (i + 1) % n
        for p, c in ((X, 1 + gamma), (Y, 1 - gamma)):
            if i == j:
                continue
            want = want + c * 0.25 * env.raw(env.const(
                _full(_Plain, np.multiply.outer(p, p).transpose((0, 2, 1, 3)), [i, j], n, 2)))
    return want


class _Plain(object):
    raw = staticmethod(np.asarray)
    outer = staticmethod(lambda a, b: np.multiply.outer(a, b))


def xy_terms(env, n):
    """Local terms, matrix product form and sparse form of the XY model."""
    ph = _physics(env)
    g = env.scalar('gamma')
    terms = ph.cXY_local_terms(n, g)
    env.check(len(terms) == n, 'number of terms')
    one = 0
    for p, c in ((X, 1 + g), (Y, 1 - g)):
        one = one + c * 0.25 * env.raw(env.const(np.kron(p, p)))
    for k, t in enumerate(terms):
        env.check(env.shape_of(t) == ((2, 2),) * 2, 'shape of term %d' % k)
        env.claims(t, 'term %d' % k)
        env.equal(_matrix(env, t, 2), one, 'term %d' % k)


def xy(env, n):
    ph = _physics(env)
    g = env.scalar('gamma')
    terms = ph.cXY_local_terms(n, g)
    want = _xy(env, n, g)
    h = ph.mpo_cH(terms)
    env.check(env.shape_of(h) == ((2, 2),) * n, 'shape')
    env.claims(h, 'mpo_cH')
    env.equal(_matrix(env, h, 2), want, 'matrix product form is the XY model')
    s = _dense(env, ph.sparse_cH(terms))
    env.equal(s, want, 'sparse form is the XY model')
    for k, t in enumerate(ph.cXY_local_terms(n, g)):
        env.equal(_matrix(env, terms[k], 2), _matrix(env, t, 2), 'term %d unchanged' % k)


def general(env, n, d, ranks, cplx, form='list', arrays=()):
    """Arbitrary nearest-neighbour terms on a ring."""
    ph = _physics(env)
    terms, ops = [], []
    for k in range(n):
        c = cplx[k % len(cplx)]
        if k in arrays:
            a = env.tensor('t%d' % k, (d * d, d * d), c)
            terms.append(a)
            ops.append(env.raw(a).reshape((d,) * 4))
        else:
            m = env.mpa('t%d' % k, [(d, d)] * 2, [ranks[k % len(ranks)]], c)
            terms.append(m)
            ops.append(env.contract(list(m.lt))[0, ..., 0].transpose((0, 2, 1, 3)))
    snaps = [None if k in arrays else env.snapshot(t) for k, t in enumerate(terms)]
    arg = tuple(terms) if form == 'tuple' else list(terms)
    want = 0
    for k in range(n - 1):
        want = want + _full(env, ops[k], [k, k + 1], n, d)
    # the last term: its first leg pair on the first, its second on the last spin
    want = want + _full(env, ops[-1], [0, n - 1], n, d)
    s = _dense(env, ph.sparse_cH(arg, ldim=d) if d != 2 else ph.sparse_cH(arg))
    env.equal(s, want, 'sparse form is the sum of the terms')
    if not arrays:
        h = ph.mpo_cH(arg)
        env.check(env.shape_of(h) == ((d, d),) * n, 'shape')
        env.claims(h, 'mpo_cH')
        env.equal(_matrix(env, h, d), want, 'matrix product form is the sum of the terms')
    env.check(len(arg) == n and all(a is b for a, b in zip(arg, terms)), 'list of terms unchanged')
    for t, snap in zip(terms, snaps):
        if snap is not None:
            env.unchanged(t, snap, 'term')


def energy(env, n):
    """E0 = -1/2 sum_l sqrt(1 - (1 - gamma^2) sin(k(l))^2)."""
    ph = _physics(env)
    g = env.scalar('gamma')
    env.assume(g <= 1)
    env.assume(g >= -1)
    e = ph.cXY_E0(n, g)
    # sin(2 pi m / n)^2 for every m, each written as a number
    import math
    want = 0
    cls = {}
    for m in range(n):
        s2 = round(math.sin(2 * math.pi * m / n) ** 2, 14)
        cls[s2] = cls.get(s2, 0) + 1
    for s2, mult in sorted(cls.items()):
        lam = (1 - (1 - g * g) * s2) ** 0.5
        want = want + mult * lam
    want = want * -0.5
    env.check(env.both(e - want <= 1e-9, want - e <= 1e-9), 'ground state energy formula')


def energy2(env):
    """Two spins: the value is the smallest eigenvalue of the operator."""
    ph = _physics(env)
    g = env.scalar('gamma')
    env.assume(g <= 1)
    env.assume(g >= -1)
    e = ph.cXY_E0(2, g)
    h = env.raw(_matrix(env, ph.mpo_cH(ph.cXY_local_terms(2, g)), 2))
    # eigenvector (0, 1, -1, 0)
    v = np.array([0, 1, -1, 0])
    hv = env.tdot(h, env.raw(env.const(v)), [1], [0])
    for i in range(4):
        d = hv[i] - e * int(v[i])
        d = getattr(d, 'real', d)
        env.check(env.both(d <= 1e-9, d >= -1e-9), 'the energy is an eigenvalue')
    # <x|H|x> >= (E0 - 1e-9) <x|x> for every real x (H is real symmetric)
    x = env.tensor('x', (4,))
    xr = env.raw(x)
    q = 0
    nn = 0
    for i in range(4):
        nn = nn + xr[i] * xr[i]
        for j in range(4):
            hij = h[i, j]
            q = q + xr[i] * hij.real * xr[j]
    env.check(q >= (e - 1e-9) * nn, 'no smaller expectation value')


def refused(env, n):
    ph = _physics(env)
    env.raises(ValueError, lambda: ph.cXY_E0(n, env.scalar('gamma')), 'energy for %d spins' % n)


def configs(tier):
    thorough = tier == 'thorough'
    for n in (2, 3, 4, 5, 6) + ((7,) if thorough else ()):
        yield 'xy', dict(n=n)
    for n in (1, 2, 3, 5, 8):
        yield 'xy_terms', dict(n=n)
    for n in (2, 3, 4) + ((5, 6) if thorough else ()):
        for ranks in ([1], [2], [1, 3], [2, 1], [4, 2]) + (([3, 2], [2, 3, 1]) if thorough else ()):
            for cplx in ([False], [True], [False, True], [True, False]):
                if n > 3 and max(ranks) > 2 and not thorough:
                    continue
                yield 'general', dict(n=n, d=2, ranks=ranks, cplx=cplx)
        yield 'general', dict(n=n, d=2, ranks=[2], cplx=[True], form='tuple')
    for n in (2, 3) + ((4,) if thorough else ()):
        for d in (1, 3):
            for cplx in ([False], [True]):
                yield 'general', dict(n=n, d=d, ranks=[2, 1], cplx=cplx)
    for n in (2, 3, 4):
        for arrays in ([0], [n - 1], list(range(n)), list(range(n - 1))):
            for cplx in ([False], [True], [False, True]):
                yield 'general', dict(n=n, d=2, ranks=[2], cplx=cplx, arrays=arrays)
    yield 'general', dict(n=3, d=3, ranks=[2], cplx=[True], arrays=[0, 1, 2])
    yield 'general', dict(n=5, d=2, ranks=[1, 2], cplx=[True, False])
    yield 'general', dict(n=2, d=4, ranks=[2], cplx=[True])
    yield 'general', dict(n=5, d=2, ranks=[2], cplx=[True], arrays=[0, 2, 4])
    for n in (2, 6):
        yield 'energy', dict(n=n)
    yield 'energy2', {}
    for n in (1, 3, 4, 5, 8, 12):
        yield 'refused', dict(n=n)
