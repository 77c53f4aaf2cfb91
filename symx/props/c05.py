"""C05: leg operations on the represented array."""
import itertools as it

import numpy as np

BOUNDS = ('1-4 sites, 0-3 legs per site (different per site where the operation permits), leg dimensions 1-3, ranks 1-3, '
          'real/complex, all leg selections and permutations, all index values, all canonical-form claims of 3 sites; '
          'single configurations with up to 7 sites, 4 legs per site, dimension 5, rank 5')
OUTSIDE = 'longer chains, larger dimensions, rounding; negative leg numbers where they are not documented'

# (shapes, ranks)
SH = {
    'one': ([(2, 3)], []),
    'one1': ([(3,)], []),
    'one3': ([(2, 3, 2)], []),
    'zero': ([()], []),
    'two': ([(2, 3), (3, 2)], [3]),
    'vec3': ([(2,), (3,), (2,)], [2, 3]),
    'three': ([(2, 3), (1, 2), (3, 2)], [2, 3]),
    'mixed': ([(2,), (2, 3), (), (3, 1, 2)], [2, 3, 2]),
    'mixed3': ([(2, 1, 3), (2,), (3, 2)], [3, 2]),
    'sq': ([(2, 2), (3, 3), (2, 2)], [2, 3]),
    'sq1': ([(1, 1), (2, 2)], [2]),
    'four': ([(2,), (1,), (3,), (2,)], [2, 1, 3]),
    'vec3c': ([(2,), (3,), (2,)], [2, 2]),
    'three3c': ([(2, 3), (1, 2), (3, 2)], [3, 3]),
    'mixed3c': ([(2, 1, 3), (2,), (3, 2)], [2, 3]),
    'cube': ([(2, 3, 2), (3, 2, 3)], [2]),
    'five': ([(2, 1), (1, 2), (2, 2), (1, 1), (2, 1)], [2, 2, 2, 1]),
    'seven': ([(2,), (1,), (2,), (1,), (2,), (1,), (2,)], [2, 1, 2, 2, 1, 2]),
    'quad': ([(2, 1, 3, 2), (1, 2, 2, 1)], [2]),
    'wide': ([(4,), (5,)], [5]),
}


def _off(shapes):
    out, k = [], 0
    for s in shapes:
        out.append(k)
        k += len(s)
    return out + [k]


def transpose(env, which, cplx, cform):
    mp = env.mp
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d, off = env.dense(a), _off(s)
    order = sum([list(reversed(range(off[k], off[k + 1]))) for k in range(len(s))], [])
    env.equal(env.dense(a.T), d.transpose(order), 'T')
    env.equal(env.dense(a.transpose()), d.transpose(order), 'transpose()')
    env.equal(env.dense(a.conj()), env.conj(d), 'conj')
    env.equal(env.dense(a.adj()), env.conj(d).transpose(order), 'adj')
    env.equal(env.dense(a.T.T), d, 'T.T')
    env.equal(env.dense(a.adj().adj()), d, 'adj.adj')
    for x, w in ((a.T, 'T'), (a.transpose(), 'transpose'), (a.conj(), 'conj'), (a.adj(), 'adj')):
        env.claims(x, w)
    env.check(env.shape_of(a.T) == tuple(tuple(reversed(x)) for x in s), 'shape of T')
    env.unchanged(a, sn, 'a')


def permute(env, which, perm, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    d, off = env.dense(a), _off(s)
    order = sum([[off[k] + p for p in perm] for k in range(len(s))], [])
    b = a.transpose(perm)
    env.equal(env.dense(b), d.transpose(order), 'transpose%r' % (perm,))
    env.claims(b, 'transpose%r' % (perm,))


def reshape(env, which, new, cplx, cform, single):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d = env.dense(a)
    arg = new
    if new == 'prune':
        full = [tuple(x for x in p if x > 1) for p in s]
    elif new == 'ravel':
        full = [(int(np.prod(p, dtype=int)),) for p in s]
    elif single:
        full = [tuple(np.empty(p).reshape(new).shape) for p in s]
    else:
        full = [tuple(np.empty(p).reshape(n).shape) for p, n in zip(s, new)]
    b = a.ravel() if new == 'ravel' else a.reshape(arg)
    env.check(env.shape_of(b) == tuple(full), 'shape after reshape')
    if env.shape_of(b) == tuple(full):
        env.equal(env.dense(b), d.reshape(sum(full, ())), 'reshape(%r)' % (new,))
    env.claims(b, 'reshape')
    env.unchanged(a, sn, 'a')
    if new != 'ravel' and not single and new != 'prune':
        b = a.reshape(iter(new))
        env.equal(env.dense(b), d.reshape(sum(full, ())), 'reshape(iterator)')


def reverse(env, which, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d, off = env.dense(a), _off(s)
    order = sum([list(range(off[k], off[k + 1])) for k in reversed(range(len(s)))], [])
    b = a.reverse()
    env.equal(env.dense(b), d.transpose(order), 'reverse')
    env.check(env.shape_of(b) == tuple(reversed([tuple(x) for x in s])), 'shape of the mirrored chain')
    env.claims(b, 'reverse')
    env.equal(env.dense(b.reverse()), d, 'reverse twice')
    env.unchanged(a, sn, 'a')


def get(env, which, cplx):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    for idx in it.product(*[range(x[0]) for x in s]):
        sel = sum([(i,) + (slice(None),) * (len(x) - 1) for i, x in zip(idx, s)], ())
        env.equal(env.dense(a.get(idx)), d[sel], 'get%r' % (idx,))
    env.claims(a.get([0] * len(s)), 'get')


def axisiter(env, which, axes, cplx):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    ax = [axes] * len(s) if isinstance(axes, int) else list(axes)
    got = list(a.axis_iter(axes))
    idxs = list(it.product(*[range(x[k]) for x, k in zip(s, ax)]))
    env.check(len(got) == len(idxs), 'axis_iter: number of items')
    for idx, g in zip(idxs, got):
        sel = sum([tuple(i if j == k else slice(None) for j in range(len(x)))
                   for i, x, k in zip(idx, s, ax)], ())
        env.equal(env.dense(g), d[sel], 'axis_iter%r item %r' % (axes, idx))


def _sumaxes(s, axes):
    """Documented meaning of the argument of sum()."""
    if axes is None:
        return [tuple(range(len(x))) for x in s]
    if isinstance(axes, int):
        return [(axes,)] * len(s)
    axes = list(axes)
    if not axes:
        return [()] * len(s)
    if all(isinstance(x, int) for x in axes):
        return [tuple(axes)] * len(s)
    return [tuple(range(len(x))) if a is None else tuple(a) for x, a in zip(s, axes)]


def sum_(env, which, axes, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d, off = env.dense(a), _off(s)
    per = _sumaxes(s, axes)
    flat = tuple(off[k] + x for k, p in enumerate(per) for x in p)
    e = d
    for x in sorted(flat, reverse=True):
        e = e.sum(axis=x)
    res = a.sum(axes) if axes != 'default' else a.sum()
    left = sum(len(x) - len(p) for x, p in zip(s, per))
    if left == 0:
        env.equal(res, e, 'sum(%r)' % (axes,))
        if not env.symbolic:
            env.check(not isinstance(res, env.mp.MPArray), 'full sum is a number')
    else:
        env.equal(env.dense(res), e, 'sum(%r)' % (axes,))
        env.claims(res, 'sum')
    env.unchanged(a, sn, 'a')


def ptrace(env, which, axes, cplx):
    """axes: (m, n) or a list with (m, n) or None per site."""
    mp = env.mp
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    sn = env.snapshot(a)
    d, off = env.dense(a), _off(s)
    per = [axes] * len(s) if isinstance(axes[0], int) else list(axes)
    e = d
    for k in reversed(range(len(s))):
        if per[k] is not None:
            m, n = [x % len(s[k]) for x in per[k]]
            e = np.trace(e, axis1=off[k] + m, axis2=off[k] + n) if not env.symbolic else _trace(e, off[k] + m, off[k] + n)
    b = mp.partialtrace(a, axes=axes)
    env.equal(env.dense(b), e, 'partialtrace(%r)' % (axes,))
    left = [len(x) - (2 if p is not None else 0) for x, p in zip(s, per)]
    env.check(len(b) == max(1, sum(1 for x in left if x > 0)), 'partialtrace: number of sites')
    if sum(left) == 0:
        env.equal(mp.trace(a, axes=axes), e, 'trace(%r)' % (axes,))
        if axes == (0, 1):
            env.equal(mp.trace(a), e, 'trace()')
            env.equal(env.dense(mp.partialtrace(a)), e, 'partialtrace()')
    env.unchanged(a, sn, 'a')


def _trace(e, i, j):
    res = None
    for k in range(e.shape[i]):
        sel = [slice(None)] * e.ndim
        sel[i] = sel[j] = k
        x = e[tuple(sel)]
        res = x if res is None else res + x
    return res


def diag(env, shapes, ranks, axis, cplx):
    mp = env.mp
    a = env.mpa('a', shapes, ranks, cplx)
    sn = env.snapshot(a)
    d = env.dense(a)
    p = len(shapes[0])
    dim = shapes[0][axis]
    got = mp.diag(a, axis=axis)
    env.check(len(got) == dim, 'diag: length')
    for k in range(dim):
        sel = tuple(k if j == axis else slice(None) for _ in shapes for j in range(p))
        if p == 1:
            env.equal(got[k], d[sel], 'diag[%d]' % k)
        else:
            env.equal(env.dense(got[k]), d[sel], 'diag(axis=%d)[%d]' % (axis, k))
    if axis == 0:
        got = mp.diag(a)
        env.check(len(got) == dim, 'diag: length (default axis)')
    env.unchanged(a, sn, 'a')


def traceerr(env):
    mp = env.mp
    a = env.mpa('a', [(2, 2), (2,)], [2])
    env.raises(AssertionError, lambda: mp.partialtrace(a, (0, 1)), 'too few legs')
    env.raises(AssertionError, lambda: mp.partialtrace(a, ((0, 2), None)), 'too few legs')
    b = env.mpa('b', [(2, 2), (2, 2)], [2])
    env.raises(AssertionError, lambda: mp.trace(b, ((0, 1), None)), 'legs left')


CF3 = [(0, 3), (1, 3), (2, 3), (0, 2), (0, 1), (1, 2)]


def configs(tier):
    big = tier != 'quick'
    for w in sorted(SH):
        for c in (False, True):
            yield 'transpose', dict(which=w, cplx=c, cform=None)
            yield 'reverse', dict(which=w, cplx=c, cform=None)
            yield 'reshape', dict(which=w, new='prune', cplx=c, cform=None, single=False)
            yield 'reshape', dict(which=w, new='ravel', cplx=c, cform=None, single=False)
    for cf in CF3:
        for w in ('vec3c', 'three3c', 'mixed3c'):
            yield 'transpose', dict(which=w, cplx=True, cform=cf)
            yield 'reverse', dict(which=w, cplx=True, cform=cf)
            yield 'reshape', dict(which=w, new='prune', cplx=True, cform=cf, single=False)
            yield 'reshape', dict(which=w, new='ravel', cplx=True, cform=cf, single=False)
        yield 'permute', dict(which='three3c', perm=(1, 0), cplx=True, cform=cf)
    for perm in it.permutations(range(3)):
        yield 'permute', dict(which='cube', perm=perm, cplx=True, cform=None)
        yield 'permute', dict(which='one3', perm=perm, cplx=False, cform=None)
    yield 'permute', dict(which='two', perm=(0, 1), cplx=True, cform=(1, 2))
    yield 'permute', dict(which='two', perm=[1, 0], cplx=False, cform=(0, 1))
    for w, new, single in [('two', (6,), True), ('two', (-1,), True), ('two', (1, -1), True), ('two', [(3, 2), (6,)], False),
                           ('two', [(2, 3, 1), (3, -1)], False), ('mixed', [(1, 2), (6,), (), (3, 2)], False),
                           ('mixed', [(2, 1), (3, 2), (1,), (6, 1)], False), ('one3', (2, 6), True), ('one3', [(12,)], False),
                           ('sq', (-1,), True), ('vec3', [(2, 1), (1, 3), (2,)], False), ('cube', (6, -1), True)]:
        for c in (False, True):
            yield 'reshape', dict(which=w, new=new, cplx=c, cform=None, single=single)
    for cf in CF3:
        yield 'reshape', dict(which='vec3c', new=[(2, 1), (1, 3), (2,)], cplx=True, cform=cf, single=False)
    for w in ('one', 'one1', 'one3', 'two', 'vec3', 'three', 'mixed3', 'cube'):
        yield 'get', dict(which=w, cplx=True)
        yield 'axisiter', dict(which=w, axes=0, cplx=True)
    for w, ax in [('one', 1), ('two', 1), ('three', 1), ('cube', 2), ('three', (0, 1, 0)), ('three', [1, 0, 1]), ('mixed3', (2, 0, 1)), ('mixed3', (1, 0, 0)),
                  ('cube', (1, 2)), ('one3', (2,))]:
        yield 'axisiter', dict(which=w, axes=ax, cplx=False)
        yield 'axisiter', dict(which=w, axes=ax, cplx=True)
    for w, ax in [('one', None), ('vec3', None), ('three', None), ('mixed', None), ('zero', None), ('vec3', 0), ('three', 0), ('three', 1), ('cube', 2), ('cube', (0, 2)),
                  ('cube', (1,)), ('cube', [2, 0]), ('three', ()), ('mixed', [(0,), (1,), (), (0, 2)]), ('mixed', [(), (), (), ()]),
                  ('mixed', [(0,), None, (), (1,)]), ('mixed', [(0,), (0, 1), (), None]), ('mixed', [None, (1,), (), (2,)]),
                  ('mixed', [None, None, None, None]), ('three', [(1,), (), (0,)]), ('three', [None, (), (0,)]), ('vec3', [(), (0,), ()]),
                  ('vec3', [(0,), (0,), (0,)]), ('vec3', [None, (), None]), ('one', [None]), ('one', [(1,)]), ('one', (1,)), ('mixed3', [(2, 0), (), (1,)]), ('mixed3', 0)]:
        yield 'sum_', dict(which=w, axes=ax, cplx=True, cform=None)
        if len(SH[w][0]) == 3:
            for cf in CF3[1:]:
                yield 'sum_', dict(which={'vec3': 'vec3c', 'three': 'three3c', 'mixed3': 'mixed3c'}[w], axes=ax, cplx=False, cform=cf)
    for w, ax in [('sq', (0, 1)), ('sq', (1, 0)), ('sq', (-2, -1)), ('sq1', (0, 1)), ('sq', [(0, 1), None, None]), ('sq', [None, (0, 1), None]),
                  ('sq', [None, None, (0, 1)]), ('sq', [(0, 1), (1, 0), None]), ('sq', [None, (0, 1), (0, 1)]), ('sq', [(0, 1), None, (0, 1)]),
                  ('sq', [None, None, None]), ('sq', [(0, 1)] * 3), ('cube', (0, 2)), ('cube', [(0, 2), None]), ('cube', [None, (2, 0)]),
                  ('cube', [(-1, 0), (0, -1)]), ('one3', (0, 2)), ('one3', (-3, -1)), ('sqmix', [(0, 1), None, (1, 2), None]),
                  ('sqmix', [None, None, (1, 2), None]), ('sqmix', [(1, 0), None, (0, 1), None]), ('sqmix', [(-1, -2), None, (-1, -2), None])]:
        for c in (False, True):
            yield 'ptrace', dict(which=w, axes=ax, cplx=c)
    for shapes, ranks, axis in [([(2,), (2,), (2,)], [2, 3], 0), ([(3,)], [], 0), ([(2, 3), (2, 2)], [3], 0), ([(3, 2), (1, 2)], [2], 1),
                                ([(2, 3, 2), (1, 3, 2)], [2], 1), ([(2, 3, 2), (1, 2, 2)], [2], 2), ([(2, 3)], [], 1), ([(2,), (2,)], [1], 0)]:
        for c in (False, True):
            yield 'diag', dict(shapes=shapes, ranks=ranks, axis=axis, cplx=c)
    for cf in [(0, 3), (1, 4), (3, 4), (2, 3), (0, 1)]:
        yield 'transpose', dict(which='four3c', cplx=True, cform=cf)
        yield 'reverse', dict(which='four3c', cplx=False, cform=cf)
    for perm in [(3, 0, 1, 2), (1, 2, 3, 0), (2, 3, 1, 0), (0, 2, 3, 1), (1, 0, 3, 2), (3, 2, 0, 1)]:
        yield 'permute', dict(which='quad', perm=perm, cplx=True, cform=None)
    yield 'permute', dict(which='five', perm=(1, 0), cplx=True, cform=None)
    for w, new, single in [('quad', [(12,), (2, 2)], False), ('quad', [(3, -1), (-1, 1)], False), ('quad', [(2, 2, 3, 1, 1), (4,)], False),
                           ('five', (-1,), True), ('seven', (1, -1), True), ('wide', [(2, 2), (1, 5)], False)]:
        yield 'reshape', dict(which=w, new=new, cplx=True, cform=None, single=single)
    for w in ('five', 'seven', 'quad', 'wide'):
        yield 'get', dict(which=w, cplx=False)
    yield 'axisiter', dict(which='five', axes=1, cplx=False)
    yield 'axisiter', dict(which='seven', axes=0, cplx=False)
    yield 'axisiter', dict(which='quad', axes=3, cplx=False)
    yield 'axisiter', dict(which='quad', axes=(2, 1), cplx=False)
    for w, ax in [('five', None), ('five', 1), ('five', [(0,), (1,), None, (0, 1), ()]), ('seven', 0), ('seven', [None, (), (), (0,), (), (), None]), ('quad', (1, 3)),
                  ('quad', [(3, 0, 1), (2,)]), ('quad', (0, 1, 2)), ('wide', 0), ('wide', [(), (0,)])]:
        yield 'sum_', dict(which=w, axes=ax, cplx=True, cform=None)
    for w, ax in [('sq5', (0, 1)), ('sq5', [None, (0, 1), None, (1, 0), None]), ('sq5', [(0, 1), None, None, None, (0, 1)]), ('sq5', [None, None, (0, 1), None, None]),
                  ('sq4', (0, 1)), ('quadsq', (1, 3)), ('quadsq', [(0, 2), None]), ('quadsq', (-1, 1))]:
        yield 'ptrace', dict(which=w, axes=ax, cplx=True)
    for shapes, ranks, axis in [([(2,), (2,), (2,), (2,), (2,)], [2, 2, 2, 2], 0), ([(4,), (4,)], [2], 0), ([(2, 1, 3, 2), (1, 2, 3, 1)], [2], 2)]:
        yield 'diag', dict(shapes=shapes, ranks=ranks, axis=axis, cplx=True)
    yield 'traceerr', dict()


SH['four3c'] = ([(2,), (2,), (2,), (2,)], [2, 2, 2])
SH['sq5'] = ([(2, 2), (1, 1), (2, 2), (2, 2), (1, 1)], [2, 1, 2, 2])
SH['sq4'] = ([(4, 4), (5, 5)], [2])
SH['quadsq'] = ([(2, 2, 2, 2), (1, 2, 1, 2)], [2])
SH['sqmix'] = ([(2, 2), (3,), (2, 2, 2), (2,)], [2, 2, 2])
