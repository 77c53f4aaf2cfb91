"""C23: dense tensor utilities."""
import itertools as it

import numpy as np

BOUNDS = {'leg reordering': '1..4 sites, 0..3 legs per site, 0..2 skipped legs on each side, unequal dimensions 1..3',
          'partial traces': '1..4 sites, every set of sites', 'Kronecker products': '1..4 factors of 0..2 axes',
          'block sums': '1..3 blocks with 1..4 axes, along every set of 1..3 axes in every order',
          'decompositions': 'matrices up to 4x4, every number of values, oversampling 0..2, 0..2 iterations, '
                            'every normaliser, transposed or not, every random matrix',
          'projections to probabilities': '1..3 values, complex or real, several tolerances'}
OUTSIDE = ('larger arrays; accuracy of the randomised decomposition as an approximation of the exact one; '
           'SVD, QR and LU through their contracts; rounding')
LIMIT = {'quick': 60, 'thorough': 600}


# ---- legs -------------------------------------------------------------------
DIMS = [2, 3, 1, 2, 3, 2, 1, 2, 2, 1, 3, 1, 2, 1, 1, 2]


def _legs(env, sites, plegs, left, right):
    shape = tuple((DIMS * 2)[:left + sites * plegs + right])
    return env.tensor('a', shape, True), shape


def legs(env, sites, plegs, left, right, bare):
    """Global form [i1 .. iN, j1 .. jN] and local form [i1, j1, i2, j2 ..]."""
    a, shape = _legs(env, sites, plegs, left, right)
    u = env.mp.utils
    kw = {} if bare else dict(left_skip=left, right_skip=right)
    raw = env.raw(a)

    def loc(i):
        mid = i[left:left + sites * plegs]
        return i[:left] + tuple(mid[s + sites * p] for s in range(sites) for p in range(plegs)) + i[left + sites * plegs:]

    def glo(i):
        mid = i[left:left + sites * plegs]
        return i[:left] + tuple(mid[plegs * s + p] for p in range(plegs) for s in range(sites)) + i[left + sites * plegs:]
    for f, g, h, what in ((u.global_to_local, loc, u.local_to_global, 'global to local'),
                          (u.local_to_global, glo, u.global_to_local, 'local to global')):
        b = f(a, sites, **kw)
        env.check(b.shape == g(shape), what + ': shape')
        want = np.empty(g(shape), dtype=raw.dtype)
        for i in np.ndindex(*shape):
            want[g(i)] = raw[i]
        env.equal(b, want, what)
        env.equal(h(b, sites, **kw), raw, what + ' and back')
    env.equal(a, raw, 'argument unchanged')


def legs_refuse(env, sites, ndim, left, right):
    a = env.tensor('a', (1,) * ndim, False)
    u = env.mp.utils
    for f in (u.global_to_local, u.local_to_global):
        env.raises(AssertionError, lambda: f(a, sites, left, right), 'legs do not fit the sites')


# ---- traces and products ----------------------------------------------------
def ptrace(env, dims, out):
    n = len(dims)
    a = env.tensor('a', tuple(dims) * 2, True)
    keep = env.raw(a).copy()
    r = env.mp.utils.partial_trace(a, list(out))
    rest = [k for k in range(n) if k not in out]
    want = np.empty(tuple(dims[k] for k in rest) * 2, dtype=keep.dtype)
    for i in np.ndindex(*want.shape):
        acc = 0
        for t in np.ndindex(*[dims[k] for k in out]):
            row, col = [None] * n, [None] * n
            for k, x in zip(rest, i[:len(rest)]):
                row[k] = x
            for k, x in zip(rest, i[len(rest):]):
                col[k] = x
            for k, x in zip(out, t):
                row[k] = col[k] = x
            acc = acc + keep[tuple(row + col)]
        want[i] = acc
    env.equal(r, want, 'partial trace')
    env.equal(a, keep, 'argument unchanged')


def kron(env, shapes, cplx):
    xs = [env.tensor('x%d' % k, s, cplx[k % len(cplx)]) for k, s in enumerate(shapes)]
    r = env.mp.utils.mkron(*xs)
    nd = max(len(s) for s in shapes)
    want = None
    for x in xs:
        x = env.raw(x)
        x = x.reshape((1,) * (nd - x.ndim) + x.shape)
        if want is None:
            want = x
            continue
        t = env.outer(want, x)
        t = t.transpose([j for k in range(nd) for j in (k, nd + k)])
        want = t.reshape(tuple(want.shape[k] * x.shape[k] for k in range(nd)))
    env.equal(r, want, 'Kronecker product')


def product(env, sa, sb, axes):
    a, b = env.tensor('a', sa, True), env.tensor('b', sb, True)
    r = env.mp.utils.matdot(a, b) if axes is None else env.mp.utils.matdot(a, b, axes)
    ax, bx = ((len(sa) - 1,), (0,)) if axes is None else axes
    ax = [x % len(sa) for x in ax]
    bx = [x % len(sb) for x in bx]
    fa = [k for k in range(len(sa)) if k not in ax]
    fb = [k for k in range(len(sb)) if k not in bx]
    ra, rb = env.raw(a), env.raw(b)
    want = np.empty([sa[k] for k in fa] + [sb[k] for k in fb], dtype=ra.dtype)
    for i in np.ndindex(*want.shape):
        acc = 0
        for c in np.ndindex(*[sa[k] for k in ax]):
            p, q = [0] * len(sa), [0] * len(sb)
            for k, x in zip(fa, i[:len(fa)]):
                p[k] = x
            for k, x in zip(fb, i[len(fa):]):
                q[k] = x
            for k, l, x in zip(ax, bx, c):
                p[k] = q[l] = x
            acc = acc + ra[tuple(p)] * rb[tuple(q)]
        want[i] = acc
    env.equal(r, want, 'contraction')


def blocks(env, shapes, axes, cplx, form='tuple'):
    xs = [env.tensor('x%d' % k, s, cplx[k % len(cplx)]) for k, s in enumerate(shapes)]
    keep = [env.raw(x).copy() for x in xs]
    arg = tuple(xs) if form == 'tuple' else list(xs)
    r = env.mp.utils.block_diag(arg, axes=axes) if axes is not None else env.mp.utils.block_diag(arg)
    nd = len(shapes[0])
    ax = [k % nd for k in (axes if axes is not None else (0, 1))]
    full = [sum(s[k] for s in shapes) if k in ax else shapes[0][k] for k in range(nd)]
    kind = 'c' if any(np.dtype(x.dtype).kind == 'c' for x in xs) else 'f'
    env.check(np.dtype(r.dtype).kind == kind, 'data type')
    want = np.empty(full, dtype=object if env.symbolic else complex)
    want[...] = 0
    start = [0] * nd
    for s, x in zip(shapes, keep):
        for i in np.ndindex(*s):
            want[tuple(p + q for p, q in zip(start, i))] = x[i]
        start = [p + (q if k in ax else 0) for k, (p, q) in enumerate(zip(start, s))]
    env.equal(r, want, 'block-diagonal sum')
    for x, y in zip(xs, keep):
        env.equal(x, y, 'block unchanged')


# ---- decompositions ---------------------------------------------------------
def _eye(env, m, left, what):
    g = env.tdot(env.conj(m), m, [0], [0]) if left else env.tdot(m, env.conj(m), [1], [1])
    env.equal(g, np.eye(g.shape[0]), what)


def _values(env, s):
    s = env.raw(s)
    for v in s:
        env.nonneg(v, 'singular values are non-negative')
    for v, w in zip(s[:-1], s[1:]):
        env.check(w <= v + (0 if env.symbolic else 1e-9), 'singular values are sorted')


def truncated(env, shape, k, cplx):
    a = env.tensor('a', shape, cplx)
    keep = env.raw(a).copy()
    u, s, v = env.mp.utils.truncated_svd(a, k)
    r = min(k, *shape)
    env.check(u.shape == (shape[0], r) and s.shape == (r,) and v.shape == (r, shape[1]), 'shapes')
    u, s, v = env.raw(u), env.raw(s), env.raw(v)
    _eye(env, u, True, 'left vectors orthonormal')
    _eye(env, v, False, 'right vectors orthonormal')
    _values(env, s)
    env.equal(env.tdot(env.conj(u), keep, [0], [0]), v * s[:, None], 'left singular vectors')
    env.equal(env.tdot(keep, env.conj(v), [1], [1]), u * s[None, :], 'right singular vectors')
    if r == min(shape):
        env.equal(env.tdot(u * s[None, :], v, [1], [0]), keep, 'all values: A = U s V')
    else:
        # the discarded part is at most as large as the smallest kept value
        if not env.symbolic:
            ref = np.linalg.svd(keep, compute_uv=False)
            env.equal(s, ref[:r], 'largest singular values')
        else:
            env.svd_factors(s)
    env.equal(a, keep, 'argument unchanged')


def randomized(env, shape, k, over, n_iter, norm, transpose, cplx):
    a = env.tensor('a', shape, cplx)
    keep = env.raw(a).copy()
    kw = dict(n_oversamples=over, n_iter=n_iter, piter_normalizer=norm, transpose=transpose, randstate=env.rng('g'))
    u, s, v = env.mp.utils.randomized_svd(a, k, **kw)
    r = min(k, *shape)
    env.check(u.shape == (shape[0], r) and s.shape == (r,) and v.shape == (r, shape[1]), 'shapes')
    env.check(np.dtype(u.dtype).kind == np.dtype(v.dtype).kind == ('c' if cplx else 'f'), 'data types')
    u, s, v = env.raw(u), env.raw(s), env.raw(v)
    _eye(env, u, True, 'left vectors orthonormal')
    _eye(env, v, False, 'right vectors orthonormal')
    _values(env, s)
    t = transpose if transpose != 'auto' else shape[0] < shape[1]
    if t:
        env.equal(env.tdot(keep, env.conj(v), [1], [1]), u * s[None, :], 'projection: A V^H = U s')
    else:
        env.equal(env.tdot(env.conj(u), keep, [0], [0]), v * s[:, None], 'projection: U^H A = s V')
    env.equal(a, keep, 'argument unchanged')


def rangefinder(env, shape, size, n_iter, norm, cplx):
    a = env.tensor('a', shape, cplx)
    f = env.mp.utils.extmath.approx_range_finder
    q = f(a, size, n_iter, norm, env.rng('g'))
    r = min(size, shape[0]) if n_iter == 0 else min(size, *shape)
    env.check(q.shape == (shape[0], r), 'shape')
    q = env.raw(q)
    _eye(env, q, True, 'orthonormal')
    if n_iter == 0 and not (cplx and size > 1 and shape[0] > 2 and env.symbolic):
        # the range of A times the random matrix
        g = env.rng('g')
        x = g.randn(shape[1], size)
        if cplx:
            x = x + 1j * g.randn(shape[1], size)
        y = env.tdot(env.raw(a), env.raw(x), [1], [0])
        env.cut(y)
        p = env.tdot(q, env.tdot(env.conj(q), y, [0], [0]), [1], [0])
        env.equal(p, y, 'contains the image of the random matrix')


# ---- projections to probabilities -------------------------------------------
def _abs2(x):
    return x.real * x.real + x.imag * x.imag


def nonneg(env, n, cplx, imag_eps, real_eps, trunc, pmf):
    env.fork_masks()
    v = env.tensor('v', (n,), cplx)
    raw = env.raw(v).copy()
    u = env.mp.utils.pmf
    f = u.project_pmf if pmf else u.project_nonneg
    re = [x.real if cplx else x for x in raw]
    im = [x.imag if cplx else 0 for x in raw]
    try:
        r = f(v, imag_eps, real_eps, trunc)
        ok = True
    except AssertionError:
        ok = False
    good = env.both(*[env.both(-imag_eps <= y, y <= imag_eps) if cplx else True for y in im])
    good = env.both(good, *[-real_eps <= x for x in re])
    if not ok and pmf:
        # either not real and non-negative or not normalised
        cut = [env.ite(x <= trunc, 0, x) for x in re]
        s = sum(cut)
        good = env.both(good, -real_eps <= s - 1, s - 1 <= real_eps)
    if not ok:
        env.check(env.no(good), 'refused only outside the tolerances')
        return
    env.check(good, 'accepted only within the tolerances')
    env.check(np.dtype(r.dtype).kind == 'f', 'real')
    cut = [env.ite(x <= trunc, 0, x) for x in re]
    s = sum(cut)
    got = env.raw(r)
    for x, y in zip(got, cut):
        env.equal(x * s if pmf else x, y, 'small values are set to zero')
    if pmf:
        env.check(env.both(-real_eps <= s - 1, s - 1 <= real_eps), 'accepted only if normalised')
        env.equal(sum(got), 1.0, 'normalised')


def configs(tier):
    big = tier != 'quick'
    for sites in (1, 2, 3, 4):
        for p in (0, 1, 2, 3):
            for l, r in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
                n = sites * p + l + r
                if n > (8 if not big else 10) or (p == 0 and l + r == 0):
                    continue
                yield 'legs', dict(sites=sites, plegs=p, left=l, right=r, bare=False)
                if l + r == 0:
                    yield 'legs', dict(sites=sites, plegs=p, left=l, right=r, bare=True)
    for sites, nd, l, r in ((2, 3, 0, 0), (3, 4, 0, 0), (2, 4, 1, 0), (2, 4, 0, 1), (3, 6, 1, 1)):
        yield 'legs_refuse', dict(sites=sites, ndim=nd, left=l, right=r)
    for dims in ((2,), (3,), (2, 3), (3, 1), (2, 3, 2), (1, 2, 3), (2, 1, 2, 2)):
        for k in range(len(dims) + 1):
            for out in it.combinations(range(len(dims)), k):
                yield 'ptrace', dict(dims=dims, out=out)
    for shapes in ([(2, 3)], [(2, 3), (3, 2)], [(2,), (3,), (2,)], [(2, 2), (1, 3), (3, 1)], [(2,), (3, 2)],
                   [(2, 1), (1, 2), (2, 2), (1, 3)], [(2, 2), (3,), (2, 1)]):
        for c in ((False,), (True,), (False, True)):
            yield 'kron', dict(shapes=shapes, cplx=c)
    for sa, sb, axes in (((2, 3), (3, 2), None), ((2, 3), (3,), None), ((3,), (3, 2), None), ((3,), (3,), None),
                         ((1, 2, 3), (3, 2, 1), None), ((2, 3, 2), (2, 3), ((0, 1), (0, 1))), ((2, 3), (2, 3), ((-1,), (-1,))),
                         ((2, 3, 1), (1, 3, 2), ((1, 2), (1, 0))), ((2,), (3,), ((), ()))):
        yield 'product', dict(sa=sa, sb=sb, axes=axes)
    B = {1: [[(2,)], [(2,), (3,)], [(1,), (2,), (3,)]],
         2: [[(2, 3)], [(2, 3), (1, 2)], [(2, 2), (3, 1), (1, 2)]],
         3: [[(2, 3, 2), (1, 3, 1)], [(1, 2, 3), (2, 2, 1), (2, 2, 2)], [(2, 1, 3), (2, 2, 3)], [(1, 3, 2), (2, 3, 2)],
             [(2, 2, 2), (2, 2, 2)]],
         4: [[(1, 2, 3, 2), (2, 2, 3, 1)], [(2, 1, 2, 2), (2, 3, 1, 2)], [(2, 2, 2, 2), (2, 2, 2, 2)]]}
    for nd, bl in B.items():
        for shapes in bl:
            for k in (1, 2, 3):
                for ax in it.permutations(range(nd), k):
                    if any(len(set(s[j] for s in shapes)) > 1 for j in range(nd) if j not in ax):
                        continue
                    for axes in set([ax, tuple(x - nd for x in ax), (ax[0],) + tuple(x - nd for x in ax[1:])]):
                        cs = ((False, True), (True, False), (True,), (False,)) if axes == ax else ((False, True),)
                        for c in cs:
                            yield 'blocks', dict(shapes=shapes, axes=axes, cplx=c)
            if nd == 2:
                yield 'blocks', dict(shapes=shapes, axes=None, cplx=(False, True), form='list')
    for shape in ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)) + ((4, 5), (5, 2)) + (((4, 4), (4, 2)) if big else ()):
        for k in (1, 2, 3, 5):
            for c in (False, True):
                yield 'truncated', dict(shape=shape, k=k, cplx=c)
    R = ((2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1))
    for shape in R:
        for k in (1, 2, 3):
            for over in (0, 1, 10):
                for t in ('auto', True, False):
                    for c in (False, True):
                        yield 'randomized', dict(shape=shape, k=k, over=over, n_iter=0, norm='auto', transpose=t, cplx=c)
    for shape in ((2, 3), (3, 2), (2, 2)):
        for n_iter in (1, 2, 3, 'auto'):
            for norm in ('auto', 'QR', 'LU', 'none'):
                for k in (1, 2):
                    yield 'randomized', dict(shape=shape, k=k, over=1, n_iter=n_iter, norm=norm, transpose='auto', cplx=True)
    for shape in ((2, 2), (3, 2), (2, 3)):
        for size in (1, 2, 3):
            for c in (False, True):
                yield 'rangefinder', dict(shape=shape, size=size, n_iter=0, norm='auto', cplx=c)
                yield 'rangefinder', dict(shape=shape, size=size, n_iter=1, norm='QR', cplx=c)
    for n in (1, 2) + ((3,) if big else ()):
        for c in (False, True):
            for eps in ((1e-10, 1e-10, 0.0), (1e-3, 0.125, 0.0), (0.125, 1e-6, 0.25)):
                for p in (False, True):
                    yield 'nonneg', dict(n=n, cplx=c, imag_eps=eps[0], real_eps=eps[1], trunc=eps[2], pmf=p)
