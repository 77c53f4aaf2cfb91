"""C09: norm and distance."""
import numpy as np

BOUNDS = ('1-4 sites, 0-2 legs per site, leg dimensions 1-3, ranks 1-3, real/complex mixed, every true starting claim for 1-4 sites, '
          'single configurations with up to 6 sites, 4 legs per site, dimension 5, rank 5, '
          'after one earlier canonicalization, scaling or tensor replacement')
OUTSIDE = 'longer chains, larger dimensions, rounding; QR through its contract; numpy.linalg.norm by its definition'

SH = {
    1: ([(3,)], []),
    '1b': ([(2, 2)], []),
    2: ([(2,), (2,)], [2]),
    '2b': ([(2,), (2,)], [3]),
    3: ([(2,), (2,), (2,)], [2, 2]),
    '3m': ([(2, 1), (), (2,)], [2, 2]),
    '3b': ([(1,), (2,), (2,)], [2, 3]),
    5: ([(2,), (1,), (2,), (1,), (2,)], [2, 2, 1, 2]),
    6: ([(1,), (2,), (1,), (2,), (1,), (2,)], [2, 2, 1, 2, 2]),
    '2w': ([(4,), (5,)], [4]),
    '2r': ([(2,), (3,)], [5]),
    '2l': ([(2, 1, 2), (1, 2, 1, 1)], [3]),
    4: ([(2,), (1,), (2,), (2,)], [2, 2, 2]),
}


def _sq(env, d):
    return env.tdot(env.conj(d), d, range(d.ndim), range(d.ndim))


def norm(env, which, cform, cplx):
    mp = env.mp
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    x = mp.norm(a)
    env.nonneg(x, 'norm is not negative')
    # the array keeps its value, so its squared norm may be taken afterwards
    env.equal(env.dense(a), d, 'norm keeps the array')
    env.equal(x * x, _sq(env, env.dense(a)), 'norm squared')
    env.claims(a, 'norm')
    y = mp.norm(a)
    env.equal(y * y, _sq(env, env.dense(a)), 'norm squared, second call')


def after(env, which, op, cplx):
    """Norm after another operation changed the bookkeeping."""
    mp = env.mp
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx)
    if op == 'canon':
        t = env.choose('target', [(l, x) for l in range(n) for x in range(1, n + 1) if l < x])
        a.canonicalize(*t)
    elif op == 'scale':
        a.canonicalize(left='afull')
        a = a * 2
    elif op == 'iscale':
        a.canonicalize(right='afull')
        a *= 3
    elif op == 'set':
        a.canonicalize(left='afull')
        k = env.choose('site', range(n))
        a.lt[k] = env.tensor('t', a.lt[k].shape, cplx)
    elif op == 'conj':
        a.canonicalize()
        a = a.conj()
    elif op == 'T':
        a.canonicalize()
        a = a.T
    elif op == 'reverse':
        a.canonicalize()
        a = a.reverse()
    elif op == 'add':
        a.canonicalize()
        a = a + env.mpa('z', s, [1] * len(r), cplx)
    d = env.dense(a)
    x = mp.norm(a)
    env.equal(env.dense(a), d, 'norm keeps the array after ' + op)
    env.equal(x * x, _sq(env, env.dense(a)), 'norm squared after ' + op)


def dist(env, which, ra, rb, ca, cb, cfa):
    mp = env.mp
    s = SH[which][0]
    a = env.mpa('a', s, ra, ca, cfa)
    b = env.mpa('b', s, rb, cb)
    da, db = env.dense(a), env.dense(b)
    x = mp.normdist(a, b)
    env.nonneg(x, 'distance is not negative')
    env.equal(x * x, _sq(env, da - db), 'squared distance')
    env.equal(env.dense(a), da, 'distance keeps a')
    env.equal(env.dense(b), db, 'distance keeps b')
    y = mp.normdist(b, a)
    env.equal(y * y, _sq(env, da - db), 'squared distance, swapped')


def configs(tier):
    big = tier != 'quick'
    for w in SH:
        n = len(SH[w][0])
        for c in (False, True) + (([k % 2 == 0 for k in range(n)],) if n > 1 else ()):
            yield 'norm', dict(which=w, cform=None, cplx=c)
    for w in (1, 2, 3, '3m', 4):
        n = len(SH[w][0])
        for cf in [(l, r) for l in range(n) for r in range(1, n + 1) if l < r]:
            yield 'norm', dict(which=w, cform=cf, cplx=(w != 4))
    for w in (1, 2, 3):
        for op in ('canon', 'scale', 'iscale', 'set', 'conj', 'T', 'reverse', 'add'):
            yield 'after', dict(which=w, op=op, cplx=(w != 3))
    for w, ra, rb in [(1, [], []), ('1b', [], []), (2, [1], [1]), (2, [2], [1]), (3, [1, 1], [1, 1]), (3, [1, 2], [1, 1])]:
        for ca, cb in [(False, False), (True, True)] if w not in (1, '1b') else [(False, False), (True, False), (False, True), (True, True)]:
            if w == 3 and ca and cb and not big:
                continue
            yield 'dist', dict(which=w, ra=ra, rb=rb, ca=ca, cb=cb, cfa=None), dict(cost=3)
    yield 'dist', dict(which=2, ra=[2], rb=[1], ca=True, cb=True, cfa=(1, 2))
    yield 'dist', dict(which=2, ra=[2], rb=[1], ca=False, cb=False, cfa=(0, 1))
    if big:
        yield 'dist', dict(which=2, ra=[2], rb=[2], ca=True, cb=True, cfa=None), dict(cost=9)
        yield 'dist', dict(which=3, ra=[2, 2], rb=[1, 2], ca=False, cb=False, cfa=None), dict(cost=9)
