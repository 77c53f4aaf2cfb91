"""C01: dense arrays survive the round trip through matrix product form."""
import numpy as np

BOUNDS = ('1-4 sites, 0-3 legs per site (equal or different per site), leg dimensions 1-3 (up to 36 entries, '
          'thorough 72), real and complex, with and without outer virtual legs of dimension 1-3; single configurations '
          'with up to 8 sites, 5 legs per site, leg dimension 6, ranks up to 6')
OUTSIDE = 'larger arrays; rounding; QR is used through its contract (A = QR, Q an isometry)'


def _sites(shape, legs):
    """Split a flat shape into per-site shapes."""
    out, k = [], 0
    for n in legs:
        out.append(tuple(shape[k:k + n]))
        k += n
    assert k == len(shape)
    return tuple(out)


def _meta(env, m, shapes, what):
    mp = env.mp
    lts = list(m.lt)
    env.check(isinstance(m, mp.MPArray), what + ': type')
    env.check(len(m) == len(lts) == len(shapes), what + ': length')
    env.check(tuple(m.shape) == tuple(shapes), what + ': shape')
    env.check(tuple(m.ndims) == tuple(len(s) for s in shapes), what + ': leg counts')
    env.check(tuple(m.ranks) == tuple(t.shape[0] for t in lts[1:]), what + ': ranks')
    env.check(tuple(m.ranks) == tuple(t.shape[-1] for t in lts[:-1]), what + ': ranks match')
    env.check(m.size == sum(int(np.prod(t.shape)) for t in lts), what + ': size')
    env.check(m.lt.shape == tuple(t.shape for t in lts), what + ': local tensor shapes')


def local(env, shape, legs, cplx, form):
    """from_array / to_array in local form; legs = number per site."""
    mp = env.mp
    a = env.tensor('a', shape, cplx)
    a0 = env.raw(a).copy()
    arg = {'int': legs[0], 'iter': iter(legs), 'list': list(legs), 'tuple': tuple(legs), 'none': None}[form]
    m = mp.MPArray.from_array(a, arg) if form != 'kw' else mp.MPArray.from_array(a, ndims=arg)
    _meta(env, m, _sites(shape, legs), 'from_array')
    env.equal(m.to_array(), a0, 'round trip')
    env.equal(env.dense(m), a0, 'represented array')
    env.equal(a, a0, 'input unchanged')
    env.claims(m, 'from_array')
    env.equal(m.lt[0].shape[:1], (1,), 'left end')
    env.equal(m.lt[len(m) - 1].shape[-1:], (1,), 'right end')


def virtual(env, shape, legs, cplx, form):
    """from_array keeping the outer virtual legs."""
    mp = env.mp
    a = env.tensor('a', shape, cplx)
    a0 = env.raw(a).copy()
    arg = {'int': legs[0], 'iter': iter(legs), 'list': list(legs)}[form]
    m = mp.MPArray.from_array(a, arg, has_virtual=True)
    _meta(env, m, _sites(shape[1:-1], legs), 'from_array(has_virtual)')
    env.equal(env.contract(list(m.lt)), a0, 'represented array')
    env.claims(m, 'from_array(has_virtual)')


def globl(env, shape, sites, cplx, default):
    """Global form: legs grouped by kind; A[i1..iN, j1..jN]."""
    mp = env.mp
    a = env.tensor('a', shape, cplx)
    a0 = env.raw(a).copy()
    n = len(shape) // sites
    m = mp.MPArray.from_array_global(a, n) if not default else mp.MPArray.from_array_global(a)
    shapes = tuple(tuple(shape[k + sites * j] for j in range(n)) for k in range(sites))
    _meta(env, m, shapes, 'from_array_global')
    env.equal(m.to_array_global(), a0, 'global round trip')
    order = [k + sites * j for k in range(sites) for j in range(n)]
    env.equal(m.to_array(), a0.transpose(order), 'local form')
    env.equal(env.dense(m), a0.transpose(order), 'represented array')
    env.claims(m, 'from_array_global')


def kron(env, shapes, cplx):
    mp = env.mp
    f = [env.tensor('f%d' % k, s, c) for k, (s, c) in enumerate(zip(shapes, cplx))]
    e = env.raw(f[0])
    for x in f[1:]:
        e = env.outer(e, env.raw(x))
    m = mp.MPArray.from_kron(f)
    _meta(env, m, tuple(shapes), 'from_kron')
    env.check(all(r == 1 for r in m.ranks), 'from_kron: ranks')
    env.equal(m.to_array(), e, 'from_kron')
    m = mp.MPArray.from_kron(iter(f))
    env.equal(env.dense(m), e, 'from_kron(iterator)')


def toarray(env, shapes, ranks, cplx):
    """to_array contracts exactly the local tensors, leaving them alone."""
    m = env.mpa('a', shapes, ranks, cplx)
    sn = env.snapshot(m)
    d = env.dense(m)
    _meta(env, m, tuple(shapes), 'constructor')
    env.equal(m.to_array(), d, 'to_array')
    if len(set(len(s) for s in shapes)) == 1:
        n, p = len(shapes), len(shapes[0])
        env.equal(m.to_array_global(), d.transpose([p * i + j for j in range(p) for i in range(n)]),
                  'to_array_global')
    cs = list(cplx) if isinstance(cplx, (list, tuple)) else [cplx] * len(shapes)
    env.check((np.dtype(m.dtype).kind == 'c') == any(cs), 'data type')
    res = m.to_array()
    if res.ndim:
        res[...] = 0
    else:
        res = None
    env.unchanged(m, sn, 'to_array result is independent')


def bad(env):
    mp = env.mp
    a = env.tensor('a', (2, 2, 2))
    env.raises(AssertionError, lambda: mp.MPArray.from_array(a, 2), 'leg count does not divide')
    env.raises(AssertionError, lambda: mp.MPArray.from_array_global(a, 2), 'leg count does not divide')
    t = [env.tensor('x', (1, 2, 2)), env.tensor('y', (3, 2, 1))]
    env.raises(AssertionError, lambda: mp.MPArray(t), 'mismatching ranks')


def configs(tier):
    big = tier != 'quick'
    for c in (False, True):
        for shape, legs in [((3,), (1,)), ((2, 3), (2,)), ((2, 3), (1, 1)), ((2, 2, 3), (1, 1, 1)),
                            ((3, 2, 2), (1, 1, 1)), ((2, 3, 2, 1), (2, 2)), ((1, 2, 3, 2), (2, 2)),
                            ((2, 1, 2, 2), (1, 1, 1, 1)), ((1, 1, 2), (1, 1, 1)), ((2, 2, 1), (1, 1, 1)),
                            ((1, 2, 1), (1, 1, 1)), ((2, 1, 1, 3, 2, 1), (3, 3))]:
            for form in ('int', 'list'):
                yield 'local', dict(shape=shape, legs=legs, cplx=c, form=form)
        for shape, legs in [((2, 3, 2), (1, 2)), ((2, 3, 2), (2, 1)), ((2, 2, 2, 2), (1, 2, 1)),
                            ((2, 2, 2, 2), (3, 1)), ((2, 3), (1, 0, 1)), ((3, 2), (0, 2)), ((1, 3, 2, 2), (1, 1, 2)),
                            ((2, 2, 3), (1, 0, 1, 1))]:
            for form in ('iter', 'list', 'tuple'):
                yield 'local', dict(shape=shape, legs=legs, cplx=c, form=form)
        yield 'local', dict(shape=(2, 3, 2), legs=(3,), cplx=c, form='none')
        yield 'local', dict(shape=(4,), legs=(1,), cplx=c, form='none')
        for shape, legs, form in [((2, 2, 3), (1,), 'int'), ((2, 2, 2, 3), (1, 1), 'int'), ((2, 3, 2, 1), (1, 1), 'list'),
                                  ((3, 2, 2, 1), (1, 1), 'int'), ((1, 2, 2, 3), (1, 1), 'int'), ((3, 1, 2, 2), (1, 1), 'int'),
                                  ((2, 2, 2, 2, 2), (1, 2), 'list'), ((2, 2, 1, 2, 3), (1, 1, 1), 'int'),
                                  ((2, 2, 2, 2), (2,), 'int'), ((2, 2, 1, 2, 2), (2, 1), 'iter')]:
            yield 'virtual', dict(shape=shape, legs=legs, cplx=c, form=form)
        for shape, sites in [((2, 3), 2), ((2, 3, 2), 3), ((2, 3, 2, 1), 2), ((1, 2, 3, 2), 2), ((2, 2, 1, 3, 1, 2), 3),
                             ((2, 1, 3, 2, 1, 2), 2), ((3,), 1), ((2, 3), 1), ((2, 3, 1, 2), 4)]:
            yield 'globl', dict(shape=shape, sites=sites, cplx=c, default=False)
        yield 'globl', dict(shape=(2, 3), sites=1, cplx=c, default=True)
    for shapes in [[(2,)], [(2, 3), (2,)], [(2,), (), (3,)], [(1,), (2, 2), (1, 3)], [(), (2,)], [(2, 1), (1, 2), (2, 2)]]:
        n = len(shapes)
        for c in ([False] * n, [True] * n, [k % 2 == 1 for k in range(n)]):
            yield 'kron', dict(shapes=shapes, cplx=c)
    for shapes, ranks in [([(2,)], []), ([(2, 3)], []), ([()], []), ([(2,), (3,)], [2]), ([(2,), (2, 3), (2,)], [2, 3]),
                          ([(2, 1), (3, 2), (1, 2)], [3, 2]), ([(2,), (), (1,), (2,)], [3, 2, 2]), ([(3,), (1,), (2,)], [1, 2]),
                          ([(2, 2), (2, 3)], [3]), ([(2, 1, 2), (1, 2, 2)], [2])]:
        n = len(shapes)
        for c in (False, True, [k == n - 1 for k in range(n)]):
            yield 'toarray', dict(shapes=shapes, ranks=ranks, cplx=c)
    # long chains, large dimensions, large ranks
    for shape, legs, c in [((2, 2, 2, 2, 2), (1,) * 5, False), ((1, 2, 1, 2, 1, 2), (1,) * 6, True), ((2, 1, 2, 1, 1, 1, 2, 1), (1,) * 8, False),
                           ((5, 4), (1, 1), True), ((4, 1, 5), (1, 1, 1), False), ((2, 1, 2, 1, 2), (5,), True), ((1, 2, 2, 1, 2, 1, 1, 2), (4, 4), False),
                           ((6,), (1,), True), ((2, 2, 1, 2, 1, 1, 2), (1, 2, 1, 2, 1), True)]:
        yield 'local', dict(shape=shape, legs=legs, cplx=c, form='list')
    for shape, sites in [((2, 1, 1, 2, 1, 1, 2, 1, 1, 2), 5), ((1, 2, 1, 2, 2, 1, 1, 2), 4), ((2, 1, 2, 1, 1, 2, 2, 1), 2), ((4, 5), 2), ((2,) * 5, 5)]:
        yield 'globl', dict(shape=shape, sites=sites, cplx=True, default=False)
    for shape, legs in [((4, 2, 2, 5), (1, 1), ), ((2, 2, 1, 2, 1, 2), (1,) * 4), ((5, 2, 1), (1,))]:
        yield 'virtual', dict(shape=shape, legs=legs, cplx=True, form='list')
    for shapes in [[(2,), (1, 2), (), (2,), (1,), (2,)], [(1,)] * 3 + [(5,), (4, 1, 1, 2)]]:
        yield 'kron', dict(shapes=shapes, cplx=[k % 2 == 0 for k in range(len(shapes))])
    for shapes, ranks in [([(2,)] * 5, [2, 2, 2, 2]), ([(1,), (2,), (1,), (2,), (1,), (2,), (1,), (2,)], [2] * 7), ([(5,), (4,)], [6]),
                          ([(2,), (1,), (2,)], [5, 4]), ([(2, 1, 1, 2), (1, 2, 1, 1)], [4])]:
        yield 'toarray', dict(shapes=shapes, ranks=ranks, cplx=len(shapes) % 2 == 0)
    yield 'bad', dict()
    if big:
        for shape, legs in [((2, 2, 2, 2, 2), (1,) * 5), ((3, 3, 3), (1, 1, 1)), ((2, 3, 3, 2), (1, 1, 1, 1)), ((3, 2, 2, 3, 2), (2, 1, 2)),
                            ((2, 2, 2, 2, 2, 2), (2, 2, 2)), ((4, 4, 2), (1, 1, 1)), ((2, 2, 3, 3, 2), (1, 2, 2))]:
            for c in (False, True):
                yield 'local', dict(shape=shape, legs=legs, cplx=c, form='list')
        for shape, sites in [((2, 2, 2, 2, 2, 2), 3), ((2, 2, 2, 2, 2, 2), 2), ((3, 2, 2, 3), 2), ((2, 1, 2, 2, 3, 2), 3)]:
            yield 'globl', dict(shape=shape, sites=sites, cplx=True, default=False)
