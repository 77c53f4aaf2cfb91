"""C21: factory functions."""
import numpy as np

BOUNDS = {'sites': '1..4 (6 for zero, eye, diagonal and unnormalised random arrays)', 'leg dimensions': '1..3 (5)', 'legs per site': '0..2 (4)', 'ranks': '1..4 (9)',
          'random generator': 'every draw symbolic (uniform draws within [0, 1))'}
OUTSIDE = ('longer chains and larger dimensions; the distribution of the draws; draws of probability zero '
           'for which a norm, trace or pivot vanishes; QR through its contract; rounding')
ASSUMES = ['norm() of an array is the norm of the represented tensor (decided by C04)', 'norms, traces and diagonal entries of the triangular factor that are divided by are not zero']


class Rec(object):
    def __init__(self, rng):
        self.rng, self.normal, self.unit = rng, [], []

    def randn(self, *shape):
        a = self.rng.randn(*shape)
        self.normal.append(a.copy() if hasattr(a, 'copy') else a)
        return a

    def rand(self, *shape):
        a = self.rng.rand(*shape)
        self.unit.append(a.copy())
        return a

    def __getattr__(self, name):
        return getattr(self.rng, name)


FORMS = {
    # argument ldim, sites, per-site shapes
    's1': (2, 1, [(2,)]), 's2': (2, 2, [(2,)] * 2), 's3': (3, 3, [(3,)] * 3), 's4': (2, 4, [(2,)] * 4),
    't2': ((2, 1), 2, [(2, 1)] * 2), 't3': ([2, 2], 3, [(2, 2)] * 3), 't1': ((3, 2), 1, [(3, 2)]),
    'l2': ([(2,), (3,)], 2, [(2,), (3,)]), 'l3': (((2,), (1, 3), (2,)), 3, [(2,), (1, 3), (2,)]),
    'l4': ([[2], [1], [3], [2]], 4, [(2,), (1,), (3,), (2,)]), 'l1': ([(2, 2)], 1, [(2, 2)]),
    'e3': ([(2,), (), (2,)], 3, [(2,), (), (2,)]),
    's6': (2, 6, [(2,)] * 6), 'w2': (5, 2, [(5,)] * 2), 'q2': ((2, 1, 1, 2), 2, [(2, 1, 1, 2)] * 2),
    'l6': ([[2], [1], [3], [2, 2], [], [2]], 6, [(2,), (1,), (3,), (2, 2), (), (2,)]),
    'one': (1, 3, [(1,)] * 3), 'gen': ('gen', 3, [(2,), (3,), (2,)]),
}


def _ldim(form):
    a, n, s = FORMS[form]
    if isinstance(a, str):
        return iter([list(t) for t in s]), n, s
    return a, n, s


def _full(shapes):
    d = [int(np.prod(s, dtype=int)) for s in shapes]
    return [min(int(np.prod(d[:k + 1])), int(np.prod(d[k + 1:]))) for k in range(len(d) - 1)]


def _want_ranks(shapes, rank, force):
    n = len(shapes)
    r = [rank] * (n - 1) if isinstance(rank, int) else list(rank)
    return tuple(r) if force else tuple(min(a, b) for a, b in zip(r, _full(shapes)))


def _basics(env, m, shapes, rank, force, what):
    env.check(type(m) is env.mp.MPArray, what + ': type')
    env.check(m.shape == tuple(tuple(s) for s in shapes), what + ': shape')
    env.check(tuple(m.ranks) == _want_ranks(shapes, rank, force), what + ': ranks')
    env.claims(m, what)


def _kind(m):
    return set(np.dtype(t.dtype).kind for t in m.lt)


def _norm2(env, d):
    d = d.reshape((-1,))
    return env.tdot(env.conj(d), d, [0], [0])


def _norm_contract(env):
    """norm() is the norm of the represented array (shown by C04)."""
    if env.symbolic:
        env.patch(env.mp.norm, lambda m: np.sqrt(_sq(env, m)))


def _sq(env, m):
    d = env.dense(m).reshape((-1,))
    acc = 0
    for x in d:
        acc = acc + abs(x) ** 2 if not env.symbolic else acc + (x * x.conjugate()).real
    return acc


def zero(env, form, rank, force):
    a, n, s = _ldim(form)
    r = iter(list(rank)) if isinstance(rank, list) else rank
    m = env.mp.factory.zero(n, a, r, force) if force else env.mp.factory.zero(n, a, r)
    _basics(env, m, s, rank, force, 'zero')
    d = env.dense(m)
    env.equal(d, np.zeros(d.shape), 'zero')


def eye(env, dims, form):
    n = len(dims)
    arg = {'int': dims[0], 'tuple': tuple(dims), 'list': list(dims), 'iter': iter(dims),
           'array': np.array(dims)}[form]
    m = env.mp.factory.eye(n, arg)
    _basics(env, m, [(d, d) for d in dims], 1, True, 'eye')
    d = env.dense(m)
    size = int(np.prod(dims))
    d = d.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2))).reshape((size, size))
    env.equal(d, np.eye(size), 'identity')


def diagonal(env, dim, n, cplx):
    e = env.tensor('e', (dim,), cplx)
    keep = env.raw(e).copy()
    m = env.mp.factory.diagonal_mpa(e, n)
    env.check(m.shape == ((dim,),) * n, 'shape')
    env.claims(m, 'diagonal')
    if n > 1:
        env.check(tuple(m.ranks) == (dim,) * (n - 1), 'rank is the number of entries')
    want = []
    for i in np.ndindex(*(dim,) * n):
        want.append(keep[i[0]] if len(set(i)) == 1 else 0 * keep[0])
    o = np.empty(len(want), dtype=env.dense(m).dtype)
    for k, x in enumerate(want):
        o[k] = x
    env.equal(env.dense(m), o.reshape((dim,) * n), 'entries on the diagonal')
    env.equal(e, keep, 'entries unchanged')


def diagonal_refuse(env, n):
    e = env.tensor('e', (2, 2), False)
    env.raises(NotImplementedError, lambda: env.mp.factory.diagonal_mpa(e, n), 'more than one axis')


def random_mpa(env, form, rank, cplx, force, normalized):
    a, n, s = _ldim(form)
    rng = Rec(env.rng('g'))
    kw = dict(dtype=np.complex_) if cplx else {}
    if force:
        kw['force_rank'] = True
    if normalized:
        kw['normalized'] = True
        _norm_contract(env)
    r = iter(list(rank)) if isinstance(rank, list) else rank
    m = env.mp.factory.random_mpa(n, a, r, randstate=rng, **kw)
    _basics(env, m, s, rank, force, 'random_mpa')
    env.check(_kind(m) == {'c' if cplx else 'f'}, 'data type')
    if normalized:
        env.equal(_norm2(env, env.dense(m)), 1.0, 'norm one')
    else:
        k = 2 if cplx else 1
        env.check(sum(int(np.prod(np.shape(a))) for a in rng.normal) >= k * sum(t.size for t in m.lt) or not rng.normal,
                  'every entry has its own draw')
        if len(rng.normal) == k * len(m.lt) and all(tuple(rng.normal[k * q + j].shape) == tuple(t.shape)
                                                    for q, t in enumerate(m.lt) for j in range(k)):
            for q, t in enumerate(m.lt):
                want = env.raw(rng.normal[k * q])
                if cplx:
                    want = want + 1j * env.raw(rng.normal[k * q + 1])
                env.equal(t, want, 'entries are the draws')


def random_mps(env, form, rank, force):
    a, n, s = _ldim(form)
    _norm_contract(env)
    m = env.mp.factory.random_mps(n, a, rank, env.rng('g'), force) if force else \
        env.mp.factory.random_mps(n, a, rank, randstate=env.rng('g'))
    _basics(env, m, s, rank, force, 'random_mps')
    env.check(_kind(m) == {'c'}, 'data type')
    env.equal(_norm2(env, env.dense(m)), 1.0, 'norm one')


def defaults(env, n, dim, rank):
    """Arguments left out have their documented defaults."""
    fac = env.mp.factory
    m = fac.random_mpa(n, dim, rank, env.rng('g'))
    _basics(env, m, [(dim,)] * n, rank, False, 'random_mpa')
    env.check(_kind(m) == {'f'}, 'random_mpa: real')
    _norm_contract(env)
    m = fac.random_mpo(n, dim, rank, env.rng('h'))
    _basics(env, m, [(dim, dim)] * n, rank, False, 'random_mpo')
    env.check(_kind(m) == {'c'}, 'random_mpo: complex')
    if rank < 3 and n < 3:
        env.equal(_norm2(env, env.dense(m)), 1.0, 'random_mpo: norm one')
    m = fac.random_mps(n, dim, rank, env.rng('i'))
    _basics(env, m, [(dim,)] * n, rank, False, 'random_mps')
    m = fac.zero(n, dim, rank)
    _basics(env, m, [(dim,)] * n, rank, False, 'zero')
    if n > 1:
        h = fac.random_local_ham(n, randstate=env.rng('k'))
        env.check(env.shape_of(h) == ((2, 2),) * n, 'random_local_ham: two-level systems')


def _matrix(d, n):
    size = int(np.prod(d.shape[::2], dtype=int))
    return d.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2))).reshape((size, size))


def random_mpo(env, n, dim, rank, hermitian, normalized, force):
    _norm_contract(env)
    m = env.mp.factory.random_mpo(n, dim, rank, env.rng('g'), hermitian=hermitian,
                                  normalized=normalized, force_rank=force)
    _basics(env, m, [(dim, dim)] * n, rank, force, 'random_mpo')
    env.check(_kind(m) == {'c'}, 'data type')
    d = env.dense(m)
    if hermitian:
        x = _matrix(d, n)
        env.equal(x, env.conj(x.T), 'Hermitian')
    if normalized:
        env.equal(_norm2(env, d), 1.0, 'norm one')


def random_mpdo(env, n, dim, rank):
    """Composed from the contracts of random_mps(), _unitary_haar() (both
    decided here) and trace() (C04); a concrete run uses the real ones."""
    fac = env.mp.factory
    real, haar, trace = fac.random_mps, fac._unitary_haar, env.mp.trace
    psis, before, count = [], [], [0]

    def mps(sites, ldim, rk, *a, **k):
        if env.symbolic:
            if not (sites == n and ldim == dim and rk == 1):
                env.unsupported('random_mpdo built in another way')
            p = env.mpa('psi%d' % len(psis), [(dim,)] * n, [1] * (n - 1), True)
        else:
            p = real(sites, ldim, rk, *a, **k)
        psis.append(env.dense(p))
        return p

    def unitary(dim, randstate=None):
        if not env.symbolic:
            return haar(dim, randstate)
        count[0] += 1
        return env.tensor('U%d' % count[0], (dim, dim), True, iso='right')

    def tr(m, *a, **k):
        if not env.symbolic:
            return trace(m, *a, **k)
        t = env.scalar('t', True)
        before.append((env.dense(m), t))
        return t
    env.patch(real, mps)
    env.patch(haar, unitary)
    env.patch(trace, tr)
    rng = Rec(env.rng('g'))
    rho = fac.random_mpdo(n, dim, rank, rng)
    _basics(env, rho, [(dim, dim)] * n, rank, True, 'random_mpdo')
    x = _matrix(env.dense(rho), n)
    size = x.shape[0]
    usual = len(psis) == rank and len(rng.unit) == 1 and rng.unit[0].shape == (rank,)
    if not usual:
        # built in another way: only the result counts
        if not env.symbolic:
            env.equal(np.trace(x), 1.0, 'trace one')
            env.equal(x, x.conj().T, 'Hermitian')
            env.check(np.linalg.eigvalsh(x).min() > -1e-9, 'positive semidefinite')
            return
        env.unsupported('random_mpdo built in another way')
    w = env.raw(rng.unit[0])
    mix = 0
    for p, q in zip(psis, w):
        p = p.reshape((-1,))
        mix = mix + env.outer(p, env.conj(p)) * q
    if env.symbolic and len(before) == 1:
        d, t = before[0]
        d = _matrix(d, n)
        env.equal(d * sum(w), mix, 'mixture of product states')
        env.equal(x * t, d, 'divided by its trace')
    else:
        env.equal(sum(x[i, i] for i in range(size)), 1.0, 'trace one')
        env.equal(x, env.conj(x.T), 'Hermitian')
        env.equal(x * sum(mix[i, i] for i in range(size)), mix, 'mixture of product states')


def haar(env, dim):
    u = env.mp.factory._unitary_haar(dim, env.rng('g'))
    env.check(u.shape == (dim, dim), 'shape')
    u = env.raw(u)
    env.equal(env.tdot(u, env.conj(u), [1], [1]), np.eye(dim), 'unitary')
    env.equal(env.tdot(env.conj(u), u, [0], [0]), np.eye(dim), 'unitary')


def random_op(env, n, dim, hermitian, normalized, cplx):
    rng = Rec(env.rng('g'))
    kw = {} if cplx else dict(dtype=np.float_)
    op = env.mp.factory._random_op(n, dim, hermitian, normalized, randstate=rng, **kw)
    env.check(op.shape == (dim,) * (2 * n), 'shape')
    env.check(np.dtype(op.dtype).kind == ('c' if cplx else 'f'), 'data type')
    m = env.raw(op).reshape((dim ** n, dim ** n))
    if hermitian:
        env.equal(m, env.conj(m.T), 'Hermitian')
    if normalized:
        env.equal(_norm2(env, m), 1.0, 'norm one')
    if not normalized and len(rng.normal) == (2 if cplx else 1):
        want = env.raw(rng.normal[0]) + (1j * env.raw(rng.normal[1]) if cplx else 0)
        want = want.reshape((dim ** n, dim ** n))
        env.equal(m, want + env.conj(want.T) if hermitian else want, 'entries are the draws')


def random_vec(env, n, dim, cplx):
    kw = {} if cplx else dict(dtype=np.float_)
    v = env.mp.factory._random_vec(n, dim, randstate=env.rng('g'), **kw)
    env.check(v.shape == (dim,) * n, 'shape')
    env.check(np.dtype(v.dtype).kind == ('c' if cplx else 'f'), 'data type')
    env.equal(_norm2(env, env.raw(v)), 1.0, 'norm one')


def random_state(env, n, dim):
    rng = Rec(env.rng('g'))
    r = env.mp.factory._random_state(n, dim, randstate=rng)
    env.check(r.shape == (dim,) * (2 * n), 'shape')
    m = env.raw(r).reshape((dim ** n, dim ** n))
    env.equal(sum(m[i, i] for i in range(dim ** n)), 1.0, 'trace one')
    env.equal(m, env.conj(m.T), 'Hermitian')
    if not env.symbolic:
        env.check(np.linalg.eigvalsh(m).min() > -1e-9, 'positive semidefinite')
    if len(rng.normal) != 2:
        if env.symbolic:
            env.unsupported('random_state built in another way')
        return
    # positive: a multiple of A^dagger A with positive factor
    a = env.raw(rng.normal[0]) + 1j * env.raw(rng.normal[1])
    g = env.tdot(env.conj(a), a, [0], [0])
    tr = sum(g[i, i] for i in range(dim ** n))
    env.equal(m * tr, g, 'positive semidefinite')


def local_ham(env, n, dim, width):
    fac = env.mp.factory
    real = fac._random_op
    ops = []

    def rec(*a, **k):
        o = real(*a, **k)
        ops.append(env.raw(o))
        return o
    env.patch(real, rec)
    h = fac.random_local_ham(n, dim, width, randstate=env.rng('g'))
    env.check(h.shape == ((dim, dim),) * n, 'shape')
    d = env.dense(h)
    x = _matrix(d, n)
    env.equal(x, env.conj(x.T), 'Hermitian')
    if len(ops) == n - width + 1:
        want = 0
        for k, o in enumerate(ops):
            o = o.reshape((dim ** width, dim ** width))
            t = env.outer(env.outer(np.eye(dim ** k), o), np.eye(dim ** (n - width - k)))
            t = t.transpose(0, 2, 4, 1, 3, 5).reshape((dim ** n, dim ** n))
            want = want + t
        env.equal(x, want, 'sum of one random term per window')
    again = fac.random_local_ham(n, dim, width, randstate=env.rng('g'))
    env.equal(env.dense(again), d, 'the result depends on the given generator only')


def seeded(env, what, n, dim):
    """Same generator, same result."""
    _norm_contract(env)
    fac = env.mp.factory
    f = {'mpa': lambda g: fac.random_mpa(n, dim, 2, randstate=g),
         'mps': lambda g: fac.random_mps(n, dim, 2, randstate=g),
         'mpo': lambda g: fac.random_mpo(n, dim, 2, randstate=g, hermitian=True, normalized=False),
         }[what]
    a, b = f(env.rng('g')), f(env.rng('g'))
    for s, t in zip(a.lt, b.lt):
        env.equal(s, t, 'the result depends on the given generator only')


def configs(tier):
    big = tier != 'quick'
    for f in sorted(set(FORMS) - {'s6', 'w2', 'q2', 'l6'}):
        n = FORMS[f][1]
        for rank in [1, 2, 3] + ([[2, 1, 3][:n - 1]] if n > 1 else []):
            for force in (False, True):
                yield 'zero', dict(form=f, rank=rank, force=force)
                for c in (False, True):
                    yield 'random_mpa', dict(form=f, rank=rank, cplx=c, force=force, normalized=False)
                    if big and (n < 4 or rank != 3) or (rank == 2 and n < 4) or isinstance(rank, list) and n == 3:
                        yield 'random_mpa', dict(form=f, rank=rank, cplx=c, force=force, normalized=True)
                if rank == 2 and (n < 4 or big):
                    yield 'random_mps', dict(form=f, rank=rank, force=force)
    for f in ('s6', 'w2', 'q2', 'l6', 's4'):
        n = FORMS[f][1]
        for rank in [4, 5, 9] + ([[4, 1, 3, 6, 2][:n - 1]] if n > 1 else []):
            for force in (False, True):
                yield 'zero', dict(form=f, rank=rank, force=force)
                yield 'random_mpa', dict(form=f, rank=rank, cplx=force, force=force, normalized=False)
    for n in (1, 2, 3):
        for rank in (1, 2, 5):
            yield 'defaults', dict(n=n, dim=2, rank=rank)
    for dims in ((2,), (1,), (3,), (2, 2), (2, 3), (2, 1, 3), (2, 2, 2), (3, 1, 2, 2), (1, 2, 1, 2, 1, 2), (5, 4), (2, 2, 2, 2, 2)):
        for form in ('int', 'tuple', 'list', 'iter', 'array'):
            if form == 'int' and len(set(dims)) > 1:
                continue
            yield 'eye', dict(dims=dims, form=form)
    for dim in (1, 2, 3, 5):
        for n in (1, 2, 3, 4, 6):
            for c in (False, True):
                if n * dim > 12:
                    continue
                yield 'diagonal', dict(dim=dim, n=n, cplx=c)
    for n in (1, 2):
        yield 'diagonal_refuse', dict(n=n)
    for n, dim, rank in ((1, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 1, 2)) + (((3, 2, 3), (4, 2, 2)) if big else ()):
        for h in (False, True):
            for norm in (False, True):
                for force in (False, True):
                    if norm and n == 4:
                        continue
                    yield 'random_mpo', dict(n=n, dim=dim, rank=rank, hermitian=h, normalized=norm, force=force)
    for n, dim, rank in ((1, 2, 1), (2, 2, 1), (2, 2, 2), (3, 2, 2), (1, 2, 2), (2, 2, 3), (3, 2, 3), (4, 2, 2), (2, 3, 2)):
        yield 'random_mpdo', dict(n=n, dim=dim, rank=rank)
    for dim in (1, 2, 3):
        yield 'haar', dict(dim=dim)
    for n, dim in ((1, 2), (2, 2), (1, 3), (3, 2)):
        for c in (False, True):
            yield 'random_vec', dict(n=n, dim=dim, cplx=c)
            if n < 3:
                for h in (False, True):
                    for norm in (False, True):
                        yield 'random_op', dict(n=n, dim=dim, hermitian=h, normalized=norm, cplx=c)
        if n < 3:
            yield 'random_state', dict(n=n, dim=dim)
    for n, dim, w in ((1, 2, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 2, 2)) + (((4, 2, 2),) if big else ()):
        yield 'local_ham', dict(n=n, dim=dim, width=w)
    for what in ('mpa', 'mps', 'mpo'):
        for n in (1, 2, 3):
            yield 'seeded', dict(what=what, n=n, dim=2)
