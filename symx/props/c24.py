"""C24: serialised arrays are restored exactly."""
import shutil
import sys
import tempfile

import numpy as np

BOUNDS = {'sites': '1..4 (rank one: up to 12)', 'legs per site': '0..3, different per site', 'dimensions': '1..3',
          'ranks': '1..3', 'outer virtual dimensions': '1..2', 'canonical form': 'every pair of claims',
          'data types': 'integer, real and complex per site', 'targets': 'group in a file and path of a file',
          'histories': 'one array, several arrays in several groups, a file written twice, an array changed in place '
                       'after it was written or read'}
OUTSIDE = ('the file format itself: symbolically, files are objects in memory which keep a copy of what is stored '
           '(h5py stores and returns values exactly); the concrete run of every configuration uses the real h5py; '
           'longer chains and larger dimensions')
ASSUMES = ['h5py: a data set holds a copy of the array stored in it with its shape and data type; attributes hold '
           'strings, numbers and sequences of numbers (returned as arrays); groups list their members by name']


class _Store(object):
    """h5py (the real one in concrete runs) and names of files in it."""

    def __init__(self, env):
        self.env = env
        if env.symbolic:
            from .. import fakeh5
            self.h5 = fakeh5.module()
            self.old = sys.modules.get('h5py')
            sys.modules['h5py'] = self.h5
            self.dir = '/scratch'
        else:
            import h5py
            self.h5 = h5py
            self.dir = tempfile.mkdtemp(prefix='symx-c24-')

    def path(self, name):
        return self.dir + '/' + name + '.h5'

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.env.symbolic:
            if self.old is None:
                del sys.modules['h5py']
            else:
                sys.modules['h5py'] = self.old
        else:
            shutil.rmtree(self.dir)


def _make(env, name, shapes, ranks, kinds, cform=None, outer=(1, 1), cls=None):
    """kinds: one of 'ifc' per site."""
    n = len(shapes)
    ks = [kinds[k % len(kinds)] for k in range(n)]
    lts = env.lts(name, shapes, ranks, [k == 'c' for k in ks], cform, outer)
    for k in range(n):
        if ks[k] == 'i':
            lts[k] = env.integers('%si%d' % (name, k), np.full(lts[k].shape, 5))
    cls = cls or env.mp.MPArray
    if cform is None:
        return cls(lts)
    return cls(env.mp.mpstruct.LocalTensors(lts, cform=tuple(cform)))


def _same(env, a, snap, dts, what, cls):
    env.check(type(a) is cls, what + ': type')
    env.check([np.dtype(t.dtype) for t in a.lt] == dts, what + ': data types')
    env.check(all(isinstance(t, np.ndarray) or not isinstance(t, (list, tuple)) for t in a.lt), what + ': arrays')
    env.unchanged(a, snap, what)
    env.check(len(a) == len(snap[0]) and
              tuple(map(tuple, a.shape)) == tuple(tuple(t.shape[1:-1]) for t in snap[0]), what + ': shape')
    l, r = a.canonical_form
    env.check(int(l) == l and int(r) == r, what + ': canonical form is a pair of integers')


def _dts(a):
    return [np.dtype(t.dtype) for t in a.lt]


def _write(st, a, target):
    if target == 'path':
        a.dump(st.path('f'))
    elif target == 'root':
        with st.h5.File(st.path('f'), 'w') as f:
            a.dump(f)
    else:
        with st.h5.File(st.path('f'), 'w') as f:
            a.dump(f.create_group('mpa'))


def _read(st, cls, target):
    if target == 'path':
        return cls.load(st.path('f'))
    with st.h5.File(st.path('f'), 'r') as f:
        return cls.load(f if target == 'root' else f['mpa'])


def roundtrip(env, shapes, ranks, kinds, cform=None, outer=(1, 1), target='path', read=None):
    with _Store(env) as st:
        a = _make(env, 'a', shapes, ranks, kinds, cform, outer)
        snap, dts = env.snapshot(a), _dts(a)
        _write(st, a, target)
        _same(env, a, snap, dts, 'array after it was written', env.mp.MPArray)
        b = _read(st, env.mp.MPArray, read or target)
        _same(env, b, snap, dts, 'array read', env.mp.MPArray)
        env.check(not any(x is y for x in a.lt for y in b.lt), 'no shared tensors')


def povm(env, sites, dim, outcomes, target):
    """Subclasses come back as the class load() is called on."""
    import mpnum.povm as mpp
    with _Store(env) as st:
        a = _make(env, 'a', [(outcomes, dim, dim)] * sites, [2] * (sites - 1), 'c', cls=mpp.MPPovm)
        snap, dts = env.snapshot(a), _dts(a)
        _write(st, a, target)
        b = _read(st, mpp.MPPovm, target)
        _same(env, b, snap, dts, 'array read', mpp.MPPovm)


def several(env, order):
    """Arrays in several groups of one file, read back in any order."""
    specs = [([(2,), (3, 2)], [2], 'f', None), ([(2, 2)], [], 'c', None), ([(2,), (2,), ()], [2, 1], 'fc', (1, 2))]
    with _Store(env) as st:
        arrs = [_make(env, 'abc'[k], *s) for k, s in enumerate(specs)]
        keep = [(env.snapshot(a), _dts(a)) for a in arrs]
        with st.h5.File(st.path('f'), 'w') as f:
            for k, a in enumerate(arrs):
                a.dump(f.create_group('g%d' % k))
        with st.h5.File(st.path('f'), 'r') as f:
            got = {k: env.mp.MPArray.load(f['g%d' % k]) for k in order}
        for k in order:
            _same(env, got[k], keep[k][0], keep[k][1], 'array %d' % k, env.mp.MPArray)


def rewritten(env, first, second, target='path'):
    """A file which is written again holds the second array only."""
    with _Store(env) as st:
        a = _make(env, 'a', [(2,)] * first, [2] * (first - 1), 'f')
        b = _make(env, 'b', [(2,)] * second, [2] * (second - 1), 'c', (second - 1, second))
        snap, dts = env.snapshot(b), _dts(b)
        _write(st, a, target)
        _write(st, b, target)
        _same(env, _read(st, env.mp.MPArray, target), snap, dts, 'array read', env.mp.MPArray)


def later(env, what, target, cform):
    """In-place changes after writing or reading reach nothing else."""
    with _Store(env) as st:
        n = 3
        a = _make(env, 'a', [(2,)] * n, [2] * (n - 1), 'fc', cform)
        snap, dts = env.snapshot(a), _dts(a)
        _write(st, a, target)
        if what == 'original':
            a *= 2
            _same(env, _read(st, env.mp.MPArray, target), snap, dts, 'array read', env.mp.MPArray)
        elif what == 'loaded':
            b = _read(st, env.mp.MPArray, target)
            b *= 2
            _same(env, a, snap, dts, 'original', env.mp.MPArray)
            env.equal(env.dense(b), 2 * env.dense(a), 'scaled copy')
            _same(env, _read(st, env.mp.MPArray, target), snap, dts, 'array read again', env.mp.MPArray)
        elif what == 'again':
            b = _read(st, env.mp.MPArray, target)
            b.dump(st.path('second'))
            c = env.mp.MPArray.load(st.path('second'))
            _same(env, c, snap, dts, 'array written and read twice', env.mp.MPArray)
        elif what == 'use':
            b = _read(st, env.mp.MPArray, target)
            env.equal(env.dense(b + a), 2 * env.dense(a), 'sum with the original')
            b.lt.update(1, env.tensor('x', (2, 2, 2)))
            env.claims(b, 'loaded array after a replacement')
            _same(env, a, snap, dts, 'original', env.mp.MPArray)


def use_norm(env, cform):
    """The restored claim can be used."""
    with _Store(env) as st:
        a = _make(env, 'a', [(2,)] * 2, [2], 'f', cform)
        _write(st, a, 'path')
        b = _read(st, env.mp.MPArray, 'path')
        want = env.dense(a)
        b.canonicalize(left=1)
        env.equal(env.dense(b), want, 'canonicalized copy')
        env.claims(b, 'canonicalized copy')


def configs(tier):
    thorough = tier == 'thorough'
    targets = ('path', 'root', 'group')
    shapesets = [[(2,)], [()], [(2, 3)], [(1, 2, 2)], [(2,), (3,)], [(2, 1), (3,)], [(), (2,)],
                 [(2,), (2, 2), (3,)], [(1,), (), (2, 3, 1)], [(2,)] * 4]
    shapesets += [[(4, 1, 1, 2), (5,)], [(2,), (1,), (2,), (1,), (2,)]]
    if thorough:
        shapesets += [[(2, 2)] * 3, [(3, 1), (2,), (), (1, 1, 2)], [(2,)] * 5, [(4, 2), (1,)]]
    for shapes in shapesets:
        n = len(shapes)
        for kinds in ('f', 'c', 'fc', 'cf', 'i', 'icf'):
            if len(kinds) > n:
                continue
            for target in targets:
                for r in ((1,), (2, 3), (3, 1)):
                    if n == 1 and r != (1,):
                        continue
                    yield 'roundtrip', dict(shapes=shapes, ranks=[r[k % len(r)] for k in range(n - 1)],
                                            kinds=kinds, target=target)
    for shapes in ([(2,)], [(2,), (3,)], [(2, 2), (2,), (3,)], [(2,)] * 4):
        n = len(shapes)
        for l in range(n):
            for r in range(l + 1, n + 1):
                for target in ('path', 'group'):
                    yield 'roundtrip', dict(shapes=shapes, ranks=[2] * (n - 1), kinds='cf'[:n], cform=(l, r),
                                            target=target)
    for outer in ((2, 1), (1, 2), (2, 2)):
        for n in (1, 2, 3):
            yield 'roundtrip', dict(shapes=[(2,)] * n, ranks=[2] * (n - 1), kinds='fc'[:n], outer=outer,
                                    target='group')
    for n in (10, 11, 12) + ((25, 101) if thorough else ()):
        for target in targets:
            yield 'roundtrip', dict(shapes=[(2,), (3,), ()] * (n // 3) + [(1,)] * (n % 3), ranks=[1] * (n - 1),
                                    kinds='fc', target=target)
    yield 'roundtrip', dict(shapes=[(2,), (3,)], ranks=[2], kinds='c', target='path', read='root')
    yield 'roundtrip', dict(shapes=[(2,), (3,)], ranks=[2], kinds='c', target='root', read='path')
    for sites in (1, 2, 3):
        for target in targets:
            yield 'povm', dict(sites=sites, dim=2, outcomes=3, target=target)
    for order in ([0, 1, 2], [2, 0, 1], [1]):
        yield 'several', dict(order=order)
    for first, second in ((1, 3), (3, 1), (2, 2)):
        for target in targets:
            yield 'rewritten', dict(first=first, second=second, target=target)
    for what in ('original', 'loaded', 'again', 'use'):
        for target in ('path', 'group'):
            for cform in (None, (1, 3), (0, 1), (1, 2)):
                yield 'later', dict(what=what, target=target, cform=cform)
    for cform in (None, (1, 2), (0, 1)):
        yield 'use_norm', dict(cform=cform)
