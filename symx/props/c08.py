"""C08: canonicalization reaches its target and preserves the array."""
import numpy as np

BOUNDS = ('1-4 sites, 0-2 legs per site, leg dimensions 1-3, ranks 1-4 (below, at and above the local dimension), real/complex, '
          'every true starting claim and every target pair (integers, negative, None, afull) for 1-4 sites, two calls in a row; '
          'single configurations with up to 6 sites, 4 legs per site, dimension 5, rank 6')
OUTSIDE = 'longer chains, larger dimensions, rounding; QR through its contract (A = QR, Q an isometry, R arbitrary)'

SH = {
    1: ([(2,)], []),
    2: ([(2,), (3,)], [2]),
    '2b': ([(2,), (2,)], [3]),            # rank above the local dimension
    3: ([(2,), (3,), (2,)], [2, 2]),
    '3b': ([(2,), (1,), (2,)], [3, 2]),
    '3m': ([(2, 1), (2,), (1, 3)], [2, 3]),
    '3z': ([(2,), (), (2,)], [2, 2]),
    '3big': ([(2,), (2,), (2,)], [4, 4]),
    4: ([(2,), (1,), (2,), (2,)], [2, 2, 2]),
    5: ([(2,), (1,), (2,), (1,), (2,)], [2, 2, 2, 2]),
    6: ([(1,), (2,), (1,), (2,), (1,), (2,)], [2, 2, 1, 2, 2]),
    '2w': ([(4,), (5,)], [4]),
    '2r': ([(2,), (3,)], [6]),
    '2l': ([(2, 1, 2), (1, 2, 1, 1)], [3]),
    '3w': ([(1,), (4,), (2,)], [3, 5]),
    '4b': ([(1,), (2,), (1,), (2,)], [2, 3, 2]),
}


SH['6c'] = ([(2,), (1,), (2,), (1,), (2,), (2,)], [2, 2, 2, 2, 2])
SH['2wc'] = ([(4,), (5,)], [4])


def _targets(n):
    neg = [-1, -2] if n > 2 else [-1]
    ls = [None, 'afull'] + list(range(n)) + neg
    rs = [None, 'afull'] + list(range(1, n + 1)) + neg
    for l in ls:
        for r in rs:
            if l is None and r is None:
                continue
            a, b = _norm(l, r, n)
            if a < b:
                yield l, r


def _norm(l, r, n):
    a = {None: 0, 'afull': n - 1}.get(l, l)
    b = {None: n, 'afull': 1}.get(r, r)
    return (a + n if a < 0 else a), (b + n if b < 0 else b)


def _iso(env, a, l, r, what):
    lts = [env.raw(t) for t in a.lt]
    for k in range(l):
        m = lts[k].reshape((-1, lts[k].shape[-1]))
        env.equal(env.tdot(env.conj(m), m, [0], [0]), np.eye(m.shape[1]), what + ': site %d is left-canonical' % k)
    for k in range(r, len(lts)):
        m = lts[k].reshape((lts[k].shape[0], -1))
        env.equal(env.tdot(m, env.conj(m), [1], [1]), np.eye(m.shape[0]), what + ': site %d is right-canonical' % k)


def _call(env, a, d, s, left, right):
    n = len(s)
    what = 'canonicalize(%r, %r)' % (left, right)
    ret = a.canonicalize(left, right)
    env.check(len(a) == n and env.shape_of(a) == tuple(tuple(x) for x in s), what + ': shape')
    env.equal(env.dense(a), d, what + ' keeps the array')
    tl, tr = _norm(left, right, n)
    if left is None and right is None:
        tl, tr = 0, n
    _iso(env, a, tl, tr, what)
    env.claims(a, what)
    l, r = a.canonical_form
    env.check(l >= tl and r <= tr and l < r, what + ': target reached')


def single(env, which, cform, cplx, target):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    left, right = target if target else env.choose('target', list(_targets(len(s))))
    _call(env, a, d, s, left, right)


def default(env, which, cform, cplx):
    """No target: some full canonical form, value kept."""
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    a.canonicalize()
    env.equal(env.dense(a), d, 'canonicalize() keeps the array')
    env.claims(a, 'canonicalize()')
    l, rr = a.canonical_form
    env.check((rr == 1 or l == n - 1) and l < rr, 'canonicalize(): full form in one direction')


def twice(env, which, cplx, first):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    _call(env, a, d, s, *first)
    _call(env, a, d, s, *env.choose('second', list(_targets(len(s)))))


def keyword(env, which, cplx):
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    a.canonicalize(left=n - 1)
    env.equal(env.dense(a), d, 'canonicalize(left=%d)' % (n - 1))
    _iso(env, a, n - 1, n, 'left=%d' % (n - 1))
    a = env.mpa('a', s, r, cplx)
    a.canonicalize(right=1)
    env.equal(env.dense(a), d, 'canonicalize(right=1)')
    _iso(env, a, 0, 1, 'right=1')
    if n > 1:
        a = env.mpa('a', s, r, cplx)
        a.canonicalize(left=1, right=n - 1 if n > 2 else n)
        env.equal(env.dense(a), d, 'canonicalize(left=1, right=n-1)')
        _iso(env, a, 1, n - 1 if n > 2 else n, 'left=1, right=n-1')


def bad(env, which):
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, True)
    sn = env.snapshot(a)
    for kw in (dict(left=n + 1), dict(left=-n - 1), dict(right=n + 1), dict(right=-n - 1), dict(left=n + 3, right=1)):
        env.raises(IndexError, lambda: a.canonicalize(**kw), 'out of range %r' % kw)
        env.unchanged(a, sn, 'refused canonicalization')
    for kw in [dict(left=l, right=x) for l in range(n + 1) for x in range(n + 1) if l >= x] + [dict(left=n), dict(right=0), dict(left='afull', right='afull')]:
        if kw == dict(left='afull', right='afull') and n == 1:
            continue
        env.raises(ValueError, lambda: a.canonicalize(**kw), 'overlap %r' % kw)
        env.unchanged(a, sn, 'refused canonicalization')


def configs(tier):
    big = tier != 'quick'
    for w in sorted(set(SH) - {'6c', '2wc'}, key=str):
        n = len(SH[w][0])
        yield 'keyword', dict(which=w, cplx=False)
        yield 'keyword', dict(which=w, cplx=True)
        yield 'default', dict(which=w, cform=None, cplx=True)
        if n < 4 or big:
            yield 'single', dict(which=w, cform=None, cplx=True, target=None), dict(cost=3)
        yield 'single', dict(which=w, cform=None, cplx=False, target=None), dict(cost=3)
        yield 'bad', dict(which=w)
    for w, cf in [(5, (1, 4)), (5, (2, 5)), (5, (0, 3)), (5, (3, 4)), (5, (4, 5)), (5, (0, 1)), ('6c', (2, 4)), ('6c', (5, 6)), ('6c', (0, 2)), ('6c', (3, 6)), ('2wc', (0, 1)), ('2wc', (1, 2)), ('2wc', (0, 2))]:
        yield 'default', dict(which=w, cform=cf, cplx=True)
        yield 'single', dict(which=w, cform=cf, cplx=False, target=None), dict(cost=4)
    for w in (1, 2, 3, '3z', 4):
        n = len(SH[w][0])
        for cf in [(l, r) for l in range(n) for r in range(1, n + 1) if l < r]:
            yield 'default', dict(which=w, cform=cf, cplx=True)
            yield 'single', dict(which=w, cform=cf, cplx=(w != 4), target=None), dict(cost=4)
    for w in (2, '2b', 3, '3b'):
        n = len(SH[w][0])
        for f in _targets(n):
            yield 'twice', dict(which=w, cplx=False, first=f), dict(cost=4)
    if big:
        for f in _targets(4):
            yield 'twice', dict(which=4, cplx=False, first=f), dict(cost=8)
        for f in _targets(3):
            yield 'twice', dict(which='3m', cplx=True, first=f), dict(cost=8)
