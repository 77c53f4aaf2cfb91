"""C10: SVD compression."""
import functools

import numpy as np

BOUNDS = ('1-4 sites, 0-2 legs per site, leg dimensions 1-3, ranks 1-4, rank bounds 1-4, both directions and the default, with and without '
          'prior canonicalization, relative errors 0, 0.25, 0.5, 1 and symbolic in [0, 1], every true starting claim of 1-3 sites; '
          'single configurations with up to 7 sites (rank bound 1), dimension 5, rank 5')
OUTSIDE = 'longer chains, larger dimensions, rounding; SVD and QR through their contracts; zero arrays with a relative error (0/0)'

SH = {
    1: ([(3,)], []),
    2: ([(2,), (2,)], [2]),
    '2n': ([(2,), (3,)], [2]),
    '2b': ([(2,), (2,)], [3]),
    '2m': ([(2, 1), (3,)], [2]),
    3: ([(2,), (2,), (2,)], [2, 2]),
    '3n': ([(2,), (1,), (3,)], [2, 2]),
    '3z': ([(2,), (), (2,)], [2, 2]),
    '3b': ([(2,), (2,), (2,)], [3, 2]),
    '3m': ([(2,), (1, 2), (2,)], [2, 2]),
    5: ([(2,), (1,), (1,), (1,), (2,)], [2, 2, 2, 2]),
    6: ([(2,), (1,), (2,), (2,), (1,)], [2, 2, 2, 1]),
    7: ([(2,), (1,), (1,), (2,), (1,), (1,)], [2, 2, 2, 1, 1]),
    '5c': ([(2,), (1,), (2,), (1,), (2,)], [2, 2, 2, 2]),
    '2w': ([(4,), (5,)], [4]),
    '2x': ([(2,), (3,)], [5]),
    '2l': ([(2, 1, 2), (1, 2, 1, 1)], [3]),
    4: ([(2,), (1,), (2,), (2,)], [2, 2, 2]),
}


def _dot(env, a, b):
    return env.tdot(env.conj(a), b, range(a.ndim), range(a.ndim))


def _rel(env, a, c, d, ret, s, bound, direction, what, exact=True):
    """The documented relations between u (dense d), c and the number ret."""
    dc = env.dense(c)
    env.check(env.shape_of(c) == tuple(tuple(x) for x in s), what + ': shape')
    if len(s) > 1:
        env.check(all(x <= bound for x in c.ranks), what + ': rank bound')
        env.check(all(x >= 1 for x in c.ranks), what + ': ranks')
    env.claims(c, what)
    env.equal(ret, _dot(env, dc, dc), what + ': returned number is <c|c>')
    if exact:
        env.equal(ret, _dot(env, d, dc), what + ': returned number is <u|c>')
    l, r = c.canonical_form
    if direction == 'right':
        env.check(l == len(s) - 1, what + ': left-canonical result')
    if direction == 'left':
        env.check(r == 1, what + ': right-canonical result')


def svd(env, which, rank, direction, cplx, cform, canon, method):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    kw = {}
    if rank is not None:
        kw['rank'] = rank
    if direction is not None:
        kw['direction'] = direction
    if canon is not None:
        kw['canonicalize'] = canon
    bound = rank if rank is not None else (max(r) if r else 1)
    what = 'compress(%s)' % ', '.join('%s=%r' % x for x in sorted(kw.items()))
    if method == 'compression':
        sn = env.snapshot(a)
        c, ret = a.compression(method='svd', **kw)
        env.unchanged(a, sn, 'compression() does not modify its object')
    elif method == 'default':
        ret = a.compress(**kw)
        c = a
    else:
        ret = a.compress('svd', **kw)
        c = a
    _rel(env, a, c, d, ret, s, bound, direction if len(s) > 1 else None, what)
    # without truncation nothing changes
    n = [int(np.prod(x)) for x in s]
    full = [min(int(np.prod(n[:k])), int(np.prod(n[k:])), r[k - 1]) for k in range(1, len(n))]
    if all(f <= bound for f in full):
        env.equal(env.dense(c), d, what + ' without truncation')


def relerr(env, which, rank, err, direction, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    if err == 'sym':
        e = env.scalar('e')
        env.assume(e >= 0)
        env.assume(e <= 1)
    else:
        e = err
    kw = dict(relerr=e, direction=direction)
    if rank is not None:
        kw['rank'] = rank
    mark = env.svd_mark()
    c, ret = a.compression('svd', **kw)
    bound = rank if rank is not None else max(r)
    _rel(env, a, c, d, ret, s, bound, direction, 'relerr=%r' % (err,))
    if err == 0 and rank is None:
        env.equal(env.dense(c), d, 'relerr=0 keeps the array')
    if len(s) == 2:
        # the singular values of the only bond decide the rank
        sv = env.svd_values(mark, d.reshape((int(np.prod(s[0])), -1)))
        k = c.ranks[0]
        tot = sum(sv[1:], sv[0])
        lost = sum(sv[k:], 0 * sv[0])
        env.check(lost <= e * tot + (0 if env.symbolic else 1e-9), 'discarded fraction is within relerr' if k < bound else 'rank bound decides')\
            if k < bound else None
        if k > 1:
            more = sum(sv[k - 1:], 0 * sv[0])
            env.check(more >= e * tot - (0 if env.symbolic else 1e-9), 'no larger rank than necessary')


def randsvd(env, which, rank, cplx, direction):
    """A different SVD function (randomised): only approximate, so the
    overlap with the original is not fixed."""
    from mpnum.utils import extmath
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    f = functools.partial(extmath.randomized_svd, n_oversamples=0, n_iter=0, randstate=env.rng())
    c, ret = a.compression('svd', rank=rank, direction=direction, svdfunc=f)
    _rel(env, a, c, d, ret, s, rank, direction, 'randomised', exact=False)


def bad(env):
    a = env.mpa('a', [(2,), (2,)], [2])
    env.raises(ValueError, lambda: a.compress('nonsense'), 'method')
    env.raises(ValueError, lambda: a.compression('nonsense'), 'method')
    env.raises(ValueError, lambda: a.copy().compress('svd', rank=1, direction='up'), 'direction')
    env.raises(AssertionError, lambda: a.copy().compress('svd', rank=0), 'rank 0')
    env.raises(AssertionError, lambda: a.copy().compress('svd', relerr=1.5), 'relerr')
    env.raises(AssertionError, lambda: a.copy().compress('svd', relerr=-0.5, direction='left'), 'relerr')


def configs(tier):
    big = tier != 'quick'
    for w in (5, 6, 7):
        for rank in (1, 2) if w == 6 else (1,):
            for dr in ('left', 'right'):
                yield 'svd', dict(which=w, rank=rank, direction=dr, cplx=(rank == 1), cform=None, canon=None, method='compression'), dict(cost=9)
    for w in ('5c',):
        n = len(SH[w][0])
        for cf in [(n // 2, n // 2 + 1), (0, 2), (n - 1, n), (1, n - 1)]:
            yield 'svd', dict(which=w, rank=1, direction=None, cplx=True, cform=cf, canon=None, method='compress')
    for w in sorted(set(SH) - {5, 6, 7, '5c'}, key=str):
        n = len(SH[w][0])
        mr = max(SH[w][1] or [1])
        for rank in sorted(set([None, 1, mr, mr - 1, mr + 1]) - {0}, key=str):
            for dr in ('left', 'right', None):
                for c in (False, True):
                    if c and n > 3 and not big:
                        continue
                    for m in ('compress', 'compression') if dr else ('default',):
                        yield 'svd', dict(which=w, rank=rank, direction=dr, cplx=c, cform=None, canon=None, method=m)
    for w in (2, '2n', 3, '3m'):
        for rank in (1, 2):
            for dr in ('left', 'right'):
                yield 'svd', dict(which=w, rank=rank, direction=dr, cplx=True, cform=None, canon=False, method='compress')
                yield 'svd', dict(which=w, rank=rank, direction=dr, cplx=False, cform=None, canon=True, method='compression')
    for w in (2, 3, '3m'):
        n = len(SH[w][0])
        for cf in [(l, r) for l in range(n) for r in range(1, n + 1) if l < r]:
            for dr in (None, 'left', 'right'):
                yield 'svd', dict(which=w, rank=1, direction=dr, cplx=True, cform=cf, canon=None, method='compress')
                yield 'svd', dict(which=w, rank=2, direction=dr, cplx=False, cform=cf, canon=None, method='compression')
                if dr:
                    yield 'svd', dict(which=w, rank=1, direction=dr, cplx=False, cform=cf, canon=False, method='compress')
    for w in (2, '2n', '2m', '2b'):
        for err in (0, 0.25, 0.5, 1, 'sym'):
            for rank in (None, 1):
                for dr in ('left', 'right'):
                    yield 'relerr', dict(which=w, rank=rank, err=err, direction=dr, cplx=False, cform=None), dict(cost=3)
    for w in (2, '2n'):
        for dr in ('left', 'right'):
            yield 'relerr', dict(which=w, rank=None, err=0.5, direction=dr, cplx=True, cform=None), dict(cost=3)
    for err in (0, 0.5):
        for dr in ('left', 'right'):
            yield 'relerr', dict(which=3, rank=None, err=err, direction=dr, cplx=False, cform=None), dict(cost=6)
            yield 'relerr', dict(which='3m', rank=1, err=err, direction=dr, cplx=False, cform=None), dict(cost=6)
    for w in (2, '2n', 3):
        for dr in ('left', 'right'):
            yield 'randsvd', dict(which=w, rank=1, cplx=False, direction=dr)
            yield 'randsvd', dict(which=w, rank=2, cplx=True, direction=dr)
    yield 'bad', dict()
