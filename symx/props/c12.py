"""C12: variational compression."""
import numpy as np

BOUNDS = ('1-4 sites, 0-2 legs per site, leg dimensions 1-3, target ranks 1-3, start ranks 1-2, windows of 1-4 sites (also longer than the chain), '
          '1-2 sweeps, given and random start arrays, real and complex')
OUTSIDE = ('longer chains, more sweeps (each sweep starts from arbitrary isometries, so later sweeps repeat the same argument); '
           'speed of convergence; zero sweeps')

SH = {
    1: ([(3,)], []),
    2: ([(2,), (2,)], [2]),
    '2n': ([(2,), (3,)], [2]),
    '2m': ([(2, 1), (1, 2)], [2]),
    '2b': ([(2,), (2,)], [3]),
    3: ([(2,), (2,), (2,)], [2, 2]),
    '3n': ([(2,), (1,), (3,)], [2, 2]),
    '3z': ([(2,), (), (2,)], [2, 2]),
    '3m': ([(2,), (1, 2), (2,)], [2, 2]),
    5: ([(2,), (1,), (2,), (1,), (2,)], [2, 2, 2, 2]),
    '2w': ([(4,), (3,)], [3]),
    '2x': ([(2,), (3,)], [5]),
    '2l': ([(2, 1, 2), (1, 2, 1, 1)], [2]),
    4: ([(2,), (2,), (1,), (2,)], [2, 2, 2]),
}


def _dot(env, a, b):
    return env.tdot(env.conj(a), b, range(a.ndim), range(a.ndim))


def _rel(env, c, d, ret, s, bound, what):
    dc = env.dense(c)
    l, r = c.canonical_form
    env.cut(*[c.lt[k] for k in range(l, r)])
    env.check(env.shape_of(c) == tuple(tuple(x) for x in s), what + ': shape')
    if len(s) > 1:
        env.check(all(1 <= x <= bound for x in c.ranks), what + ': rank bound')
    env.claims(c, what)
    env.equal(ret, _dot(env, dc, dc), what + ': returned number is <c|c>')
    env.equal(_dot(env, dc, dc), _dot(env, d, dc), what + ': <c|c> = <u|c>')


def var(env, which, start, sweeps, window, cplx, method, cform=None, scform=None):
    """start: ranks of the start array, or an int: random start of that rank."""
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    env.cut(d)
    kw = {'num_sweeps': sweeps}
    if window is not None:
        kw['var_sites'] = window
    b = None
    if isinstance(start, int):
        kw['rank'] = start
        kw['randstate'] = env.rng()
        bound = start
    else:
        b = env.mpa('b', s, start, cplx, scform)
        sb = env.snapshot(b)
        kw['startmpa'] = b
        bound = max(start) if start else 1
    sn = env.snapshot(a)
    if method == 'compression':
        c, ret = a.compression('var', **kw)
        env.unchanged(a, sn, 'compression() does not modify its object')
    else:
        ret = a.compress('var', **kw)
        c = a
    if b is not None:
        env.unchanged(b, sb, 'the start array is not modified')
    what = 'var(start=%r, sweeps=%d, window=%r)' % (start, sweeps, window)
    _rel(env, c, d, ret, s, bound, what)
    win = 2 if window is None else window
    n = [int(np.prod(x)) for x in s]
    full = [min(int(np.prod(n[:k])), int(np.prod(n[k:])), r[k - 1]) for k in range(1, len(n))]
    if win >= len(s) and all(x <= bound for x in full):
        env.equal(env.dense(c), d, what + ': the window spans the chain and the rank suffices')
    if bound > max(r or [0]):
        env.equal(env.dense(c), d, what + ': nothing to compress')


def fixed(env, which, sweeps, window, cplx, cform, scform):
    """Starting from the original in another gauge changes nothing."""
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    env.cut(d)
    b = a.copy()
    if scform:
        b.canonicalize(*scform)
    c, ret = a.compression('var', startmpa=b, num_sweeps=sweeps, var_sites=window)
    what = 'starting from the original'
    env.equal(env.dense(c), d, what + ': result')
    env.claims(c, what)


def bad(env):
    a = env.mpa('a', [(2,), (2,)], [2])
    env.raises(ValueError, lambda: a.compress('var', num_sweeps=1), 'neither start nor rank')
    b = env.mpa('b', [(2,), (3,)], [2])
    env.raises(AssertionError, lambda: a.compression('var', num_sweeps=1, startmpa=b), 'shape of the start array')


def configs(tier):
    big = tier != 'quick'
    for win in (1, 2, 4):
        for sr in (1, 2):
            yield 'var', dict(which=5, start=sr, sweeps=1, window=win, cplx=False, method='compress'), dict(cost=3)
            yield 'var', dict(which=5, start=[sr] * 4, sweeps=1, window=win, cplx=True, method='compression'), dict(cost=3)
    for w in sorted(set(SH) - {5}, key=str):
        n = len(SH[w][0])
        for sr in (1, 2):
            st = [sr] * (n - 1)
            for win in sorted({1, 2, n, n + 1} if n > 1 else {1, 2}):
                for c in (False, True):
                    for sw in (1, 2) if n < 4 or big else (1,):
                        yield 'var', dict(which=w, start=st, sweeps=sw, window=win, cplx=c, method='compression')
                    yield 'var', dict(which=w, start=sr, sweeps=1, window=win, cplx=c, method='compress')
        yield 'var', dict(which=w, start=3 if w != '2b' else 4, sweeps=1, window=1, cplx=True, method='compress')
        yield 'var', dict(which=w, start=1, sweeps=1, window=None, cplx=True, method='compress')
        yield 'var', dict(which=w, start=2, sweeps=1, window=None, cplx=False, method='compression')
    yield 'var', dict(which=3, start=[2, 1], sweeps=1, window=1, cplx=True, method='compress')
    yield 'var', dict(which=3, start=[1, 2], sweeps=2, window=2, cplx=True, method='compression')
    for cf in ((1, 2), (0, 1), (2, 3), (1, 3), (0, 2)):
        yield 'var', dict(which=3, start=[2, 2], sweeps=1, window=1, cplx=True, method='compression', cform=cf, scform=None)
        yield 'var', dict(which=3, start=[2, 2], sweeps=1, window=2, cplx=True, method='compress', cform=None, scform=cf)
    for w in (2, '2n', '2m', 3, '3z', '3n', '3m'):
        n = len(SH[w][0])
        # a window shorter than the chain: only where the solver can decide it
        for win in (1, n) if w in (2, '2m') else (n,):
            for c in (False, True):
                for sw in (1, 2) if big or n < 3 else (1,):
                    yield 'fixed', dict(which=w, sweeps=sw, window=win, cplx=c, cform=None, scform=None)
                    yield 'fixed', dict(which=w, sweeps=sw, window=win, cplx=c, cform=None, scform=(n - 1, None))
    yield 'bad', dict()
