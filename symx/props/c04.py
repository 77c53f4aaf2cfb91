"""C04: inner products and sandwiches."""
import numpy as np

BOUNDS = ('1-4 sites, 0-3 legs per site (different per site), leg dimensions 1-3, ranks 1-3, real/complex mixed per site; '
          'single configurations with up to 8 sites, dimension 6, rank 5')
OUTSIDE = 'longer chains, larger dimensions, rounding'


def _scal(env, a, b):
    """<a|b> of dense arrays, conjugating a."""
    return env.tdot(env.conj(a), b, range(a.ndim), range(b.ndim))


def inner(env, s, ra, rb, ca, cb):
    mp = env.mp
    a = env.mpa('a', s, ra, ca)
    b = env.mpa('b', s, rb, cb)
    na, nb = env.snapshot(a), env.snapshot(b)
    da, db = env.dense(a), env.dense(b)
    env.equal(mp.inner(a, b), _scal(env, da, db), '<a|b>')
    env.equal(mp.inner(b, a), _scal(env, db, da), '<b|a>')
    env.equal(mp.inner(a, a), _scal(env, da, da), '<a|a>')
    env.unchanged(a, na, 'a')
    env.unchanged(b, nb, 'b')


def innercf(env, s, r, cf, cplx):
    """The claimed canonical form must not matter."""
    mp = env.mp
    a = env.mpa('a', s, r, cplx, cf)
    b = env.mpa('b', s, r, cplx)
    env.equal(mp.inner(a, b), _scal(env, env.dense(a), env.dense(b)), '<a|b>')
    env.equal(mp.inner(a, a), _scal(env, env.dense(a), env.dense(a)), '<a|a>')


def reshaped(env, s, s2, ra, rb):
    """Operands with equal dimensions but different legs per site."""
    mp = env.mp
    a = env.mpa('a', s, ra, True)
    b = env.mpa('b', s2, rb, True)
    da = env.dense(a).reshape(-1)
    db = env.dense(b).reshape(-1)
    env.equal(mp.inner(a, b), _scal(env, da, db), '<a|b>')


def sandwich(env, d, dout, ro, r1, r2, co, c1, c2):
    """<y|M|x> with M mapping legs d to legs dout."""
    mp = env.mp
    M = env.mpa('m', [(o, i) for o, i in zip(dout, d)], ro, co)
    x = env.mpa('x', [(i,) for i in d], r1, c1)
    y = env.mpa('y', [(o,) for o in dout], r2, c2)
    n = len(d)
    dm, dx, dy = env.dense(M), env.dense(x), env.dense(y)
    mx = env.tdot(dm, dx, [2 * k + 1 for k in range(n)], range(n))
    s = [env.snapshot(v) for v in (M, x, y)]
    env.equal(mp.sandwich(M, x, y), _scal(env, dy, mx), '<y|M|x>')
    env.equal(mp.inner(y, mp.dot(M, x)), _scal(env, dy, mx), '<y|Mx>')
    if list(d) == list(dout):
        env.equal(mp.sandwich(M, x), _scal(env, dx, mx), '<x|M|x>')
        my = env.tdot(dm, dy, [2 * k + 1 for k in range(n)], range(n))
        env.equal(mp.sandwich(M, y, mps2=x), _scal(env, dx, my), '<x|M|y>')
    for v, sn in zip((M, x, y), s):
        env.unchanged(v, sn, 'operand')


def product(env, d, r, ca, cb):
    """Specialised inner product with a product vector."""
    from mpnum import special
    mp = env.mp
    a = env.mpa('a', [(i,) for i in d], [1] * (len(d) - 1), ca)
    b = env.mpa('b', [(i,) for i in d], r, cb)
    e = _scal(env, env.dense(a), env.dense(b))
    env.equal(special.inner_prod_mps(a, b), e, 'special <a|b>')
    env.equal(mp.inner(a, b), e, '<a|b>')


def bad(env):
    mp = env.mp
    a = env.mpa('a', [(2,), (2,)], [2])
    b = env.mpa('b', [(2,)], [])
    env.raises(AssertionError, lambda: mp.inner(a, b), 'length mismatch')
    env.raises(AssertionError, lambda: mp.inner(b, a), 'length mismatch')
    c = env.mpa('c', [(2,), (3,)], [2])
    env.raises((AssertionError, ValueError), lambda: mp.inner(a, c), 'dimension mismatch')


def configs(tier):
    big = tier != 'quick'
    CC = [(False, False), (True, True), (False, True), (True, False)]
    S = [([(3,)], [], []), ([(2, 3)], [], []), ([()], [], []), ([(2,), (3,)], [2], [3]), ([(2, 3), ()], [3], [2]),
         ([(2,), (3,), (2,)], [2, 3], [3, 1]), ([(2, 2), (), (1, 3)], [3, 2], [1, 2]),
         ([(1,), (2,), (1,), (2,)], [1, 2, 3], [3, 2, 2]), ([(2, 1, 2), (2,)], [2], [2])]
    for s, ra, rb in S:
        for ca, cb in CC:
            yield 'inner', dict(s=s, ra=ra, rb=rb, ca=ca, cb=cb)
        n = len(s)
        if n > 1:
            for k in range(n):
                pat = [j == k for j in range(n)]
                yield 'inner', dict(s=s, ra=ra, rb=rb, ca=pat, cb=False)
                yield 'inner', dict(s=s, ra=ra, rb=rb, ca=True, cb=pat)
    for cf in [(1, 3), (2, 3), (0, 2), (0, 1), (1, 2)]:
        yield 'innercf', dict(s=[(2,), (3,), (2,)], r=[2, 2], cf=cf, cplx=True)
    yield 'reshaped', dict(s=[(2, 3), (2,)], s2=[(6,), (2, 1)], ra=[2], rb=[3])
    yield 'reshaped', dict(s=[(2, 2), ()], s2=[(2, 2), (1,)], ra=[2], rb=[2])
    for d, dout, ro, r1, r2 in [([2], [2], [], [], []), ([2], [3], [], [], []), ([2, 3], [2, 3], [2], [3], [2]),
                                ([2, 3], [3, 1], [2], [2], [3]), ([2, 2, 2], [2, 2, 2], [2, 3], [2, 1], [1, 2]),
                                ([2, 1, 2], [1, 2, 3], [2, 2], [2, 2], [2, 1]), ([1, 2, 2], [1, 2, 2], [3, 2], [2, 2], [2, 3])]:
        for co, c1, c2 in [(True, True, True), (False, True, False), (True, False, False), (False, False, True), (False, False, False)]:
            yield 'sandwich', dict(d=d, dout=dout, ro=ro, r1=r1, r2=r2, co=co, c1=c1, c2=c2)
    for d, r in [([3], []), ([2, 3], [3]), ([2, 3, 2], [2, 3]), ([1, 2, 2, 3], [2, 3, 2]), ([2, 2], [1])]:
        for ca, cb in CC:
            yield 'product', dict(d=d, r=r, ca=ca, cb=cb)
    for s, ra, rb in [([(2,)] * 5, [2, 2, 3, 2], [2, 3, 1, 2]), ([(1,), (2,), (1,), (2,), (2,), (1,), (2,), (1,)], [2] * 7, [1, 2, 1, 2, 2, 1, 2]),
                      ([(5,), (4,)], [5], [4]), ([(2, 1, 2, 1), (2,)], [3], [5]), ([(2,), (2,), (2,)], [4, 5], [5, 4]), ([(6,)], [], [])]:
        for ca, cb in [(True, False), (True, True)]:
            yield 'inner', dict(s=s, ra=ra, rb=rb, ca=ca, cb=cb)
    for d, dout, ro, r1, r2 in [([2, 1, 2, 2], [1, 2, 2, 2], [2, 2, 2], [1, 2, 2], [2, 1, 2]), ([2, 1, 1, 2, 1], [2, 1, 1, 2, 1], [2, 2, 2, 2], [2, 1, 2, 1], [1, 2, 1, 2]),
                                ([4, 2], [4, 2], [2], [4], [2]), ([2, 2], [5, 1], [5], [2], [4])]:
        yield 'sandwich', dict(d=d, dout=dout, ro=ro, r1=r1, r2=r2, co=True, c1=True, c2=False)
    for d, r in [([2, 1, 2, 2, 1], [2, 3, 2, 2]), ([5, 2], [4]), ([2] * 6, [2] * 5)]:
        yield 'product', dict(d=d, r=r, ca=True, cb=True)
    yield 'bad', dict()
    if big:
        for s, ra, rb in [([(3,)] * 4, [3, 4, 3], [2, 3, 3]), ([(2, 2)] * 3, [4, 4], [3, 4]), ([(2,)] * 6, [2, 3, 3, 3, 2], [2, 2, 3, 2, 2])]:
            for ca, cb in CC:
                yield 'inner', dict(s=s, ra=ra, rb=rb, ca=ca, cb=cb)
        for d, dout, ro, r1, r2 in [([2] * 4, [2] * 4, [2, 3, 2], [2, 2, 2], [2, 3, 2]), ([3, 2, 3], [2, 3, 2], [3, 3], [3, 3], [3, 3])]:
            yield 'sandwich', dict(d=d, dout=dout, ro=ro, r1=r1, r2=r2, co=True, c1=True, c2=True)
