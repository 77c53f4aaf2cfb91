"""C11: bond singular values."""
import numpy as np

BOUNDS = ('1-4 sites, 0-2 legs per site, leg dimensions 1-3, ranks 1-3, every true starting claim of 2-3 sites, '
          'single configurations with up to 6 sites, 4 legs per site, dimension 5, rank 5; '
          'for every bipartition M = W diag(values) Z is shown with isometric W and Z, so the values are the singular values of M')
OUTSIDE = 'longer chains, larger dimensions, rounding; SVD and QR through their contracts'

SH = {
    1: ([(3,)], []),
    2: ([(2,), (2,)], [2]),
    '2n': ([(2,), (3,)], [2]),
    '2r': ([(3,), (2,)], [2]),
    '2b': ([(2,), (2,)], [3]),
    '2m': ([(2, 1), (2,)], [2]),
    '2o': ([(3,), (2,)], [1]),
    3: ([(2,), (1,), (2,)], [2, 2]),
    '3a': ([(2,), (2,), (2,)], [2, 2]),
    '3n': ([(2,), (2,), (2,)], [1, 2]),
    '3u': ([(2,), (2,), (2,)], [2, 1]),
    '3z': ([(2,), (), (2,)], [2, 2]),
    '3w': ([(2,), (2,), (3,)], [2, 2]),
    5: ([(2,), (1,), (2,), (1,), (2,)], [2, 2, 2, 2]),
    6: ([(1,), (2,), (1,), (2,), (1,), (2,)], [2, 2, 2, 2, 2]),
    '2w': ([(4,), (5,)], [4]),
    '2x': ([(2,), (3,)], [5]),
    '2l': ([(2, 1, 2), (1, 2, 1, 1)], [3]),
    4: ([(2,), (1,), (2,), (1,)], [2, 2, 1]),
    '4a': ([(2,), (2,), (2,), (2,)], [2, 2, 2]),
}


def _moments(env, m, kmax):
    g = env.tdot(m, env.conj(m), [1], [1])
    p = g
    out = []
    for k in range(kmax):
        if k:
            p = env.tdot(p, g, [1], [0])
        out.append(sum(p[i, i] for i in range(p.shape[0])))
    return out


def schmidt(env, which, cplx, cform):
    """M = W diag(values) Z with W^H W = 1 = Z Z^H for every bipartition."""
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    n = len(s)
    num = 0
    for k, x in enumerate(a.singularvals()):
        num += 1
        rows = int(np.prod([np.prod(t, dtype=int) for t in s[:k + 1]]))
        m = d.reshape((rows, -1))
        x = env.raw(x)
        env.check(x.ndim == 1, 'values are a vector')
        for v in x:
            env.nonneg(v, 'singular values are non-negative')
        for v, w in zip(x[:-1], x[1:]):
            env.check(w <= v + (0 if env.symbolic else 1e-9), 'singular values are sorted')
        if not env.symbolic:
            ref = np.linalg.svd(m, compute_uv=False)
            want = np.zeros(max(len(ref), len(x)))
            mine = want.copy()
            mine[:len(x)] = x
            want[:len(ref)] = ref
            env.equal(mine, want, 'singular values of bipartition %d' % k)
            continue
        u, v = env.svd_factors(x)
        lts = [env.raw(t) for t in a.lt]
        rk = lts[k].shape[0]
        w = u.reshape((rk, -1, len(x)))
        if k:
            w = env.tdot(env.contract(lts[:k]), w, [sum(len(t) for t in s[:k]) + 1], [0])
        w = w.reshape((rows, len(x)))
        z = env.contract(lts[k + 1:])
        z = env.tdot(v, z, [1], [0]).reshape((len(x), -1))
        what = 'bipartition %d' % k
        env.equal(env.tdot(w * x[None, :], z, [1], [0]), m, what + ': M = W s Z')
        eye = np.eye(len(x))
        env.equal(env.tdot(env.conj(w), w, [0], [0]), eye, what + ': W isometric')
        env.equal(env.tdot(z, env.conj(z), [1], [1]), eye, what + ': Z isometric')
    env.check(num == n - 1, 'one set of values per bipartition')
    env.equal(env.dense(a), d, 'singularvals() keeps the represented array')
    env.claims(a, 'singularvals()')


def sv(env, which, cplx, cform, kmax):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d = env.dense(a)
    n = len(s)
    vals = []
    for x in a.singularvals():
        vals.append(env.raw(x).copy())
    env.check(len(vals) == n - 1, 'one set of values per bipartition')
    env.equal(env.dense(a), d, 'singularvals() keeps the represented array')
    env.claims(a, 'singularvals()')
    for k, x in enumerate(vals):
        rows = int(np.prod([np.prod(t, dtype=int) for t in s[:k + 1]]))
        m = d.reshape((rows, -1))
        full = min(m.shape)
        env.check(x.ndim == 1 and len(x) <= full + 1, 'number of values')
        for v in x:
            env.nonneg(v, 'singular values are non-negative')
        for v, w in zip(x[:-1], x[1:]):
            env.check(w <= v + (0 if env.symbolic else 1e-9), 'singular values are sorted')
        if not env.symbolic:
            ref = np.linalg.svd(m, compute_uv=False)
            mine = np.zeros(max(len(ref), len(x)))
            mine[:len(x)] = x
            want = np.zeros(len(mine))
            want[:len(ref)] = ref
            env.equal(mine, want, 'singular values of bipartition %d' % k)
            continue
        for q, mom in enumerate(_moments(env, m, min(full, kmax))):
            acc = 0
            for v in x:
                t = v * v
                for _ in range(q):
                    t = t * v * v
                acc = acc + t
            env.equal(acc, mom, 'sum of %d-th powers of the singular values of bipartition %d' % (2 * q + 2, k))


def configs(tier):
    big = tier != 'quick'
    for w in SH:
        for c in (False, True):
            yield 'schmidt', dict(which=w, cplx=c, cform=None)
    for w in (2, '2n', 3, '3a', '3w', '4a'):
        n = len(SH[w][0])
        for cf in [(l, r) for l in range(n) for r in range(1, n + 1) if l < r]:
            yield 'schmidt', dict(which=w, cplx=True, cform=cf)
    for w in (1, 2, '2n', '2r', '2m', '2o') + ((3, '3n', '3u', '3a') if big else ()):
        for c in (False, True):
            yield 'sv', dict(which=w, cplx=c, cform=None, kmax=1)
