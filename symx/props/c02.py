"""C02: linear structure (addition, subtraction, scalars, weighted sums)."""
import numpy as np

BOUNDS = ('1-4 sites, 0-2 legs per site, local dimension 1-3, ranks 1-3 (different left and right operands, '
          'non-uniform along the chain), real/complex operands mixed per site, 1-7 summands, '
          'single configurations with up to 8 sites, 4 legs per site, dimension 5, rank 5, '
          'every canonical-form claim (l, r) of the scaled operand for 3 sites')
OUTSIDE = 'longer chains, larger dimensions, integer/float32 dtypes, rounding'

SHAPES = {
    'one': ([(3,)], [], []),
    'one2': ([(2, 3)], [], []),
    'zero1': ([()], [], []),
    'two': ([(2,), (3,)], [2], [3]),
    'two1': ([(2,), (2,)], [1], [2]),
    'three': ([(2,), (3,), (2,)], [2, 3], [3, 1]),
    'mixed': ([(2, 3), (), (2,)], [3, 2], [1, 2]),
    'ones': ([(1,), (2,), (1,)], [1, 2], [2, 1]),
    'five': ([(2,), (1,), (2,), (1,), (2,)], [2, 1, 2, 2], [1, 2, 2, 1]),
    'eight': ([(1,), (2,), (1,), (1,), (2,), (1,), (1,), (2,)], [2, 1, 2, 1, 2, 2, 1], [1, 2, 1, 2, 1, 1, 2]),
    'wide': ([(5,), (4,)], [5], [4]),
    'legs': ([(1, 2, 1, 2), (2, 1, 2)], [2], [4]),
    'four': ([(2,), (1,), (2, 2), (2,)], [2, 1, 2], [1, 3, 2]),
}


def _pair(env, which, ca, cb, cfa=None, cfb=None):
    s, ra, rb = SHAPES[which]
    a = env.mpa('a', s, ra, ca, cfa)
    b = env.mpa('b', s, rb, cb, cfb)
    return a, b


def addsub(env, which, ca, cb):
    a, b = _pair(env, which, ca, cb)
    sa, sb = env.snapshot(a), env.snapshot(b)
    da, db = env.dense(a), env.dense(b)
    env.equal(env.dense(a + b), da + db, 'a + b')
    env.equal(env.dense(a - b), da - db, 'a - b')
    env.equal(env.dense(b - a), db - da, 'b - a')
    env.equal(env.dense(a + a), da + da, 'a + a')
    env.equal(env.dense(a - a), da - da, 'a - a')
    env.unchanged(a, sa, 'a')
    env.unchanged(b, sb, 'b')
    env.check(env.shape_of(a + b) == env.shape_of(a), 'shape of the sum')


def chainsum(env, which, ca, cb):
    """Sums of sums, with scalars in between: (2a - b)/4 + i*b - a."""
    a, b = _pair(env, which, ca, cb)
    da, db = env.dense(a), env.dense(b)
    c = ((2 * a - b) / 4 + b * 1j) - a
    env.equal(env.dense(c), (2 * da - db) / 4 + db * 1j - da, '(2a-b)/4 + ib - a')


def scale(env, which, ca, cplx, cform):
    s, ra, _ = SHAPES[which]
    a = env.mpa('a', s, ra, ca, cform)
    x = env.scalar('x', cplx)
    sa, da = env.snapshot(a), env.dense(a)
    env.equal(env.dense(a * x), da * x, 'a * x')
    env.equal(env.dense(x * a), da * x, 'x * a')
    env.equal(env.dense(-a), -da, '-a')
    env.equal(env.dense(+a), da, '+a')
    env.equal(env.dense(3 * a), 3 * da, '3 * a')
    env.equal(env.dense(a * 0), 0 * da, '0 * a')
    env.equal(env.dense(a / 2), da / 2, 'a / 2')
    env.equal(env.dense(a / x) * x, da, 'a / x * x')
    env.unchanged(a, sa, 'a')


def inplace(env, which, ca, cplx, cform):
    s, ra, _ = SHAPES[which]
    a = env.mpa('a', s, ra, ca, cform)
    x = env.scalar('x', cplx)
    da = env.dense(a)
    lt0 = list(a.lt)[0]
    b = a
    b *= x
    env.check(b is a, 'in-place keeps identity')
    env.equal(env.dense(a), da * x, 'a *= x')
    a *= 2
    env.equal(env.dense(a), 2 * (da * x), 'a *= 2')
    a /= 2
    env.equal(env.dense(a), da * x, 'a /= 2')
    a /= x
    env.equal(env.dense(a) * x, da * x, 'a /= x')
    c = env.mpa('c', s, ra, ca, cform)
    d = env.mpa('d', s, ra, cplx)
    dc, dd = env.dense(c), env.dense(d)
    keep = c
    c += d
    env.equal(env.dense(c), dc + dd, 'c += d')
    c -= d
    env.equal(env.dense(c), dc, 'c -= d')


def mulerr(env, which, ca):
    """Multiplication by anything that is not a scalar is refused."""
    s, ra, rb = SHAPES[which]
    a = env.mpa('a', s, ra, ca)
    b = env.mpa('b', s, rb, ca)
    env.raises(NotImplementedError, lambda: a * b, 'mpa * mpa')
    env.raises(NotImplementedError, lambda: a / b, 'mpa / mpa')
    env.raises(NotImplementedError, lambda: a * np.ones(2), 'mpa * array')


def sumup(env, which, cs, weights, extra):
    """Sum of several arrays, different ranks, optional weights."""
    s, ra, rb = SHAPES[which]
    ranks = [ra, rb, [1] * len(ra), ra, rb, [2] * len(ra), [1] * len(ra)]
    mpas, ds = [], []
    for k, c in enumerate(cs):
        m = env.mpa('a%d_' % k, s, ranks[k], c)
        mpas.append(m)
        ds.append(env.dense(m))
    snaps = [env.snapshot(m) for m in mpas]
    if weights == 'none':
        r = env.mp.sumup(mpas)
        e = ds[0]
        for d in ds[1:]:
            e = e + d
    else:
        w = [env.scalar('w%d' % k, weights == 'c') for k in range(len(cs))]
        if weights == 'num':
            w = [2, -0.5, 3, 0.25, -1, 1.5, 4][:len(cs)]
        if extra == 'iter':
            r = env.mp.sumup(iter(mpas), weights=iter(w))
        elif extra == 'tuple':
            r = env.mp.sumup(tuple(mpas), weights=tuple(w))
        else:
            r = env.mp.sumup(mpas, weights=w)
        e = ds[0] * w[0]
        for d, x in zip(ds[1:], w[1:]):
            e = e + d * x
    env.equal(env.dense(r), e, 'sum of %d (weights %s)' % (len(cs), weights))
    env.check(env.shape_of(r) == env.shape_of(mpas[0]), 'shape of the sum')
    for m, sn in zip(mpas, snaps):
        env.unchanged(m, sn, 'summand')


def lenerr(env):
    a = env.mpa('a', [(2,), (2,)], [2])
    b = env.mpa('b', [(2,), (2,), (2,)], [2, 2])
    env.raises(AssertionError, lambda: a + b, 'length mismatch')
    env.raises(AssertionError, lambda: b + a, 'length mismatch')
    env.raises(AssertionError, lambda: env.mp.sumup([a, b]), 'length mismatch')


def configs(tier):
    big = tier != 'quick'
    mix3 = [False, True, False]
    for which in ('one', 'one2', 'zero1', 'two', 'two1', 'three', 'mixed', 'ones', 'four', 'ones3'):
        n = len(SHAPES[which][0])
        for ca, cb in [(False, False), (True, True), (False, True), (True, False)]:
            yield 'addsub', dict(which=which, ca=ca, cb=cb)
        yield 'chainsum', dict(which=which, ca=False, cb=True)
        yield 'chainsum', dict(which=which, ca=True, cb=False)
        for ca, cx in [(False, False), (False, True), (True, False), (True, True)]:
            yield 'scale', dict(which=which, ca=ca, cplx=cx, cform=None)
            yield 'inplace', dict(which=which, ca=ca, cplx=cx, cform=None)
        yield 'mulerr', dict(which=which, ca=False)
    for pat in ([True, False, False], [False, True, False], [False, False, True]):
        for w in ('three', 'mixed', 'ones'):
            yield 'addsub', dict(which=w, ca=pat, cb=False)
            yield 'addsub', dict(which=w, ca=False, cb=pat)
            yield 'sumup', dict(which=w, cs=[False, pat, False], weights='none', extra='')
    # canonical-form claims: the scaled site must not be a claimed one
    for cf in [(0, 3), (1, 3), (2, 3), (0, 2), (0, 1), (1, 2)]:
        yield 'scale', dict(which='ones3', ca=True, cplx=True, cform=cf)
        yield 'inplace', dict(which='ones3', ca=False, cplx=False, cform=cf)
        yield 'inplace', dict(which='ones3', ca=True, cplx=True, cform=cf)
    for cf in [(0, 2), (1, 2), (0, 1)]:
        yield 'scale', dict(which='two1', ca=False, cplx=True, cform=cf)
        yield 'inplace', dict(which='two1', ca=False, cplx=False, cform=cf)
    for which in ('one', 'one2', 'two', 'three', 'mixed', 'four'):
        for cs in ([False], [True, False], [False, True, False], [False, False, False, True]):
            for w, ex in (('none', ''), ('f', ''), ('c', 'iter'), ('num', 'tuple')):
                yield 'sumup', dict(which=which, cs=cs, weights=w, extra=ex)
    for which in ('five', 'eight', 'wide', 'legs'):
        yield 'addsub', dict(which=which, ca=True, cb=False)
        yield 'addsub', dict(which=which, ca=False, cb=False)
        yield 'chainsum', dict(which=which, ca=False, cb=True)
        yield 'scale', dict(which=which, ca=False, cplx=True, cform=None)
        yield 'inplace', dict(which=which, ca=True, cplx=False, cform=None)
        yield 'sumup', dict(which=which, cs=[False, True, False], weights='c', extra='')
    for which in ('two', 'ones', 'one'):
        for cs in ([False] * 4 + [True], [True] + [False] * 5, [False] * 7):
            for w, ex in (('none', ''), ('c', 'iter'), ('num', '')):
                yield 'sumup', dict(which=which, cs=cs, weights=w, extra=ex)
    yield 'lenerr', dict()


SHAPES['ones3'] = ([(2,), (3,), (2,)], [2, 2], [1, 1])
