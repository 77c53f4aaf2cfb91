"""C19: sums of product arrays in one go."""
import numpy as np

BOUNDS = {'sites': '1..4 (single configurations 5, 6)', 'summands': '1..5', 'leg dimensions': '1..3 (single configurations 4, 5)', 'legs per site': '1..2 (4)',
          'target rank': '1..4 (thorough 6)', 'weights': 'none, real and complex, every value',
          'decompositions': 'truncated SVD, randomised SVD (every random matrix), caller supplied'}
OUTSIDE = ('more sites, summands or larger dimensions; scipy.sparse.linalg.svds as svdfunc; '
           'SVD and QR through their contracts; rounding')

SH = {
    1: [(2,)], '1m': [(2, 3)],
    2: [(2,), (3,)], '2m': [(2, 1), (2, 2)], '2w': [(1,), (3,)],
    3: [(2,), (2,), (2,)], '3n': [(2,), (3,), (2,)], '3m': [(2,), (2, 1), (1, 2)],
    '3o': [(1,), (2,), (2,)], '3x': [(3,), (1,), (2,)],
    5: [(2,), (2,), (1,), (2,), (2,)], '4w': [(3,), (2,), (3,), (2,)],
    6: [(2,), (1,), (1,), (2,), (1,), (2,)], '2x': [(5,), (2, 1, 2, 1)],
    '4g': [(1,), (4,), (4,), (2,)], '3g': [(1,), (3,), (4,)], '3h': [(2,), (4,), (5,)],
    4: [(2,), (2,), (2,), (2,)], '4n': [(2,), (1,), (3,), (2,)],
}


def _sum(env, mpas, w):
    acc = 0
    for k, m in enumerate(mpas):
        d = env.dense(m)
        acc = acc + (d if w is None else d * env.raw(w)[k])
    return acc


def _cut(shapes, num, rank):
    """Does the target rank cut anything?"""
    r = 1
    for s in shapes[:-1]:
        full = min(r * int(np.prod(s)), num)
        r = min(full, rank)
        if r < full:
            return True
    return False


def total(env, which, num, rank, cplx, wkind, svd='truncated', form='list'):
    s = SH[which]
    mp = env.mp
    n = len(s)
    cs = cplx if isinstance(cplx, (list, tuple)) else [cplx] * num
    mpas = [env.mpa('a%d' % k, s, [1] * (n - 1), cs[k]) for k in range(num)]
    snaps = [env.snapshot(m) for m in mpas]
    w = None
    if wkind:
        w = env.tensor('w', (num,), wkind == 'c')
    kw = {}
    seen = []
    if svd == 'own':
        def own(a, k):
            seen.append((a.shape, k))
            u, sv, v = np.linalg.svd(a, full_matrices=False)
            return u[:, :k], sv[:k], v[:k]
        kw['svdfunc'] = own
    elif svd == 'truncated':
        kw['svdfunc'] = mp.utils.truncated_svd
    elif svd == 'randomized':
        def rnd(a, k):
            return mp.utils.randomized_svd(a, k, n_iter=0, randstate=env.rng('r%d' % len(seen)))
        kw['svdfunc'] = rnd
    arg = {'list': mpas, 'iter': iter(mpas), 'tuple': tuple(mpas)}[form]
    if w is not None:
        kw['weights'] = w
    res = mp.special.sumup(arg, rank, **kw)
    env.check(env.shape_of(res) == tuple(tuple(t) for t in s), 'shape of the sum')
    env.check(type(res) is mp.MPArray, 'type of the sum')
    want = _sum(env, mpas, w)
    if n > 1:
        env.check(all(r <= max(rank, 1) for r in res.ranks), 'ranks within the bound')
        env.check(all(r <= num for r in res.ranks), 'ranks do not exceed the number of summands')
    env.claims(res, 'sum')
    for m, sn in zip(mpas, snaps):
        env.unchanged(m, sn, 'summand')
    for shape, k in seen:
        env.check(0 < k <= rank, 'decomposition asked for at most rank values')
        env.check(shape[1] == num, 'decomposition of a matrix with one column per summand')
    if n == 1 or (svd != 'randomized' and not _cut(s, num, rank)):
        env.equal(env.dense(res), want, 'weighted sum')
    else:
        # orthogonal projection of the sum: last tensor = Q^dagger sum
        lts = [env.raw(t) for t in res.lt]
        q = env.contract(lts[:-1])[0]
        nl = q.ndim - 1
        for k, t in enumerate(lts[:-1]):
            m = t.reshape((-1, t.shape[-1]))
            env.equal(env.tdot(env.conj(m), m, [0], [0]), np.eye(m.shape[1]), 'orthonormal basis')
        got = env.tdot(env.conj(q), want, range(nl), range(nl))
        env.equal(lts[-1][..., 0], got, 'compressed sum is the projection of the sum')


def configs(tier):
    big = tier != 'quick'
    for w in sorted(set(SH) - {6, '2x', '4g', '3g', '3h'}, key=str):
        n = len(SH[w])
        if w in (5, '4w') and not big:
            yield 'total', dict(which=w, num=2, rank=1, cplx=True, wkind='f')
            yield 'total', dict(which=w, num=3, rank=3, cplx=False, wkind=None)
            continue
        for num in (1, 2, 3) + ((4, 5) if big else ()):
            for rank in sorted(set([1, 2, num, num + 1])):
                for wk in (None, 'f', 'c'):
                    if n == 4 and not big and (wk == 'f' or num == 3):
                        continue
                    if w == 5 and num > 3 and rank == 2 and wk == 'f':
                        continue
                    cp = True if wk != 'f' else False
                    yield 'total', dict(which=w, num=num, rank=rank, cplx=cp, wkind=wk)
    for w in (1, 2, 3):
        for svd in ('own', 'default'):
            for rank in (1, 2, 3):
                yield 'total', dict(which=w, num=2, rank=rank, cplx=True, wkind='f', svd=svd)
        for form in ('iter', 'tuple'):
            yield 'total', dict(which=w, num=2, rank=2, cplx=False, wkind=None, svd='default', form=form)
        for cs in ((False, True), (True, False)):
            for wk in (None, 'f', 'c'):
                yield 'total', dict(which=w, num=2, rank=2, cplx=cs, wkind=wk)
    for num, rank in ((4, 2), (5, 3), (5, 5), (4, 6)):
        for w in (2, 3, '3m'):
            yield 'total', dict(which=w, num=num, rank=rank, cplx=False, wkind='f')
    for num, rank in ((2, 1), (3, 3)):
        yield 'total', dict(which='2x', num=num, rank=rank, cplx=True, wkind='f')
        yield 'total', dict(which=6, num=num, rank=rank, cplx=False, wkind='f')
    for w in ('3g', '3h', '4g'):
        # bonds grow quickly from a narrow beginning
        for num, rank in ((3, 3), (5, 5)) + (((5, 4),) if w != '4g' else ()):
            yield 'total', dict(which=w, num=num, rank=rank, cplx=False, wkind='f')
    for w in (2, 3, '3n'):
        for num, rank in ((1, 1), (2, 2), (2, 3)):
            yield 'total', dict(which=w, num=num, rank=rank, cplx=True, wkind='f', svd='randomized')
