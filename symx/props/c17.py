"""C17: packing samples is a bijection, counting is exact."""
import numpy as np

BOUNDS = {'sites': '1..7', 'outcomes per site': '1..6, 16, 17, 64, 65, 128 and 255, products up to 255*255',
          'samples': '1..3, every entry a symbolic integer of its full range',
          'types': 'int64 and uint8 samples, packing to (u)int8/16/64'}
OUTSIDE = ('more than 7 sites with outcomes, more than 3 samples at once, outcome numbers '
           'whose product exceeds 2**63')

SH = {'1': (3,), '2': (2, 3), '2s': (3, 1, 2), '3': (2, 3, 2), '3e': (1, 2, 1, 4, 3, 1),
      '4': (2, 2, 3, 2), '6': (6, 6, 6), 'w': (255, 2), 'ww': (255, 255), '16': (16, 16),
      '17': (17, 16), '8': (2,) * 7, '64': (64, 2), '65': (2, 65), '30': (1,),
      '5': (3, 2, 1, 2, 4, 2), 'x': (2, 255, 3), 'y': (128, 2, 3)}


def _mpp(env, dims):
    lts = [np.ones((1, d, 1, 1, 1)) / d for d in dims]
    return env.mp.povm.MPPovm([env.const(t) for t in lts])


def _ns(dims):
    return tuple(d for d in dims if d > 1)


def _pack(row, ns):
    acc = 0
    for x, d in zip(row, ns):
        acc = acc * d + x
    return acc


def _kind(a):
    return np.dtype(a.dtype).kind


def pack(env, which, ns, dtype):
    """pack -> value, then unpack(pack(x)) = x."""
    dims = SH[which]
    nsd = _ns(dims)
    m = _mpp(env, dims)
    s = env.integers('s', [nsd] * ns, np.dtype(dtype).type)
    r = m.pack_samples(s)
    env.check(r.shape == (ns,), 'one integer per sample')
    env.check(_kind(r) in 'iu', 'packed samples are integers')
    raw = env.raw(s)
    want = [_pack([int(x) if not env.symbolic else x for x in raw[k]], nsd) for k in range(ns)]
    env.equal(r, np.array(want) if not env.symbolic else _arr(env, want), 'packed value')
    if all(d <= 255 for d in dims):
        back = m.unpack_samples(r)
        env.check(back.shape == (ns, len(nsd)), 'shape after unpacking')
        env.equal(back, s, 'unpack(pack(samples)) = samples')
    l = env.mp.povm.MPPovmList([m, m])
    out = list(l.pack_samples([s, s]))
    env.check(len(out) == 2, 'one result per measurement')
    for o in out:
        env.equal(o, r, 'list: packed like the single measurement')
    if all(d <= 255 for d in dims):
        for o in l.unpack_samples(out):
            env.equal(o, s, 'list: unpack(pack(samples)) = samples')


def _arr(env, xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    from .. import arr as A
    return A.wrap(o, 'i')


def unpack(env, which, ns, dtype):
    """unpack -> digits, then pack(unpack(p)) = p."""
    dims = SH[which]
    nsd = _ns(dims)
    m = _mpp(env, dims)
    total = int(np.prod(nsd))
    top = min(total, int(np.iinfo(dtype).max) + 1)
    p = env.integers('p', [top] * ns, np.dtype(dtype).type)
    u = m.unpack_samples(p)
    env.check(u.shape == (ns, len(nsd)), 'one row per sample')
    env.check(_kind(u) in 'iu', 'unpacked samples are integers')
    for k in range(ns):
        row = [env.raw(u)[k][j] for j in range(len(nsd))]
        for x, d in zip(row, nsd):
            env.check(env.both(x >= 0, x < d), 'outcome in range')
        if not env.symbolic:
            row = [int(x) for x in row]
        env.equal(_pack(row, nsd), env.raw(p)[k], 'outcomes encode the packed sample')
    back = m.pack_samples(u)
    env.equal(back, p, 'pack(unpack(p)) = p')


def narrow(env, which, ns, dtype):
    """Packing to a given type keeps the value or is refused."""
    dims = SH[which]
    nsd = _ns(dims)
    m = _mpp(env, dims)
    s = env.integers('s', [nsd] * ns, np.uint8)
    raw = env.raw(s)
    want = [_pack([int(x) if not env.symbolic else x for x in raw[k]], nsd) for k in range(ns)]
    top = int(np.iinfo(dtype).max)
    try:
        r = m.pack_samples(s, dtype=np.dtype(dtype).type)
    except AssertionError:
        ok = [w <= top for w in want]
        env.check(_not(env, env.both(*ok)), 'refused only if a sample does not fit')
        return
    for w in want:
        env.check(w <= top, 'accepted only if the samples fit')
    env.equal(r, _arr(env, want) if env.symbolic else np.array(want), 'packed value')
    if not env.symbolic:
        env.check(r.dtype == np.dtype(dtype), 'requested type')


def _not(env, b):
    return ~b if env.symbolic else not b


def count(env, which, ns, packed, normalize, dtype):
    """est_pmf counts the samples of every outcome."""
    dims = SH[which]
    nsd = _ns(dims)
    m = _mpp(env, dims)
    dt = np.dtype(dtype).type
    if packed:
        total = int(np.prod(nsd))
        s = env.integers('p', [min(total, int(np.iinfo(dt).max) + 1)] * ns, dt)
    else:
        s = env.integers('s', [nsd] * ns, dt)
    l = env.mp.povm.MPPovmList([m])
    variants = [m.est_pmf(s, normalize=normalize)] + list(l.est_pmf([s], normalize))
    if normalize:
        variants.append(m.est_pmf(s))
        variants += list(l.est_pmf([s]))
    raw = env.raw(s)
    for e in variants:
        env.check(e.shape == nsd, 'shape of the estimate')
        want = np.empty(nsd, dtype=object)
        for i in np.ndindex(*nsd):
            c = 0
            for k in range(ns):
                if packed:
                    hit = raw[k] == int(np.ravel_multi_index(i, nsd))
                else:
                    hit = env.both(*[raw[k][j] == i[j] for j in range(len(nsd))])
                c = c + env.ite(hit, 1, 0)
            want[i] = c / ns if normalize else c
        if not env.symbolic:
            want = want.astype(float)
        env.equal(e, want, 'fraction of samples with each outcome')
        if not normalize:
            env.check(_kind(e) in 'iu', 'counts are integers')


def members(env, dims, cplx, form):
    """Lists from any iterable, members of different dimension."""
    mp = env.mp
    M = mp.povm.MPPovm
    n = len(dims)
    plain = M(env.lts('e', [(d, 2, 2) for d in dims], [2] * (n - 1), cplx))
    povm = M(env.lts('f', [(d, 1, 1) for d in dims], [1] * (n - 1), cplx))
    arg = [plain, povm, plain]
    l = mp.povm.MPPovmList({'list': arg, 'iter': iter(arg), 'tuple': tuple(arg)}[form])
    env.check(len(l.mpps) == 3, 'number of measurements')
    env.equal(env.dense(l.mpps[1]), env.dense(povm), 'the same elements')
    for m in l.mpps:
        env.check(isinstance(m, M), 'every member is a measurement')
        env.check(m.nsoutdims == _ns(dims) and m.outdims == tuple(dims), 'outcomes')
    for m in (l.mpps[0], l.mpps[2]):
        env.equal(env.dense(m), env.dense(plain), 'the same elements')
    s = env.integers('s', [_ns(dims)] * 2, np.uint8)
    out = list(l.pack_samples([s] * 3))
    env.check(len(out) == 3, 'one result per measurement')
    for o in out:
        for k in range(2):
            row = env.raw(s)[k]
            env.equal(env.raw(o)[k], _pack([x if env.symbolic else int(x) for x in row], _ns(dims)), 'packed value')
    for e in l.est_pmf([s] * 3):
        env.check(e.shape == _ns(dims), 'shape of the estimate')


def unequal(env):
    mp = env.mp
    a = mp.povm.MPPovm(env.lts('a', [(2, 1, 1)] * 2, [1]))
    b = mp.povm.MPPovm(env.lts('b', [(2, 1, 1)] * 3, [1, 1]))
    env.raises(AssertionError, lambda: mp.povm.MPPovmList([a, b]), 'different numbers of sites')


def configs(tier):
    big = tier != 'quick'
    for w in SH:
        if w == '30':
            continue
        n = len(_ns(SH[w]))
        for dt in ('i8', 'u1'):
            for ns in (1, 2) + ((3,) if big else ()):
                if w == '8' and ns > 1 and not big:
                    continue
                yield 'pack', dict(which=w, ns=ns, dtype=dt)
        for dt in ('i8', 'u1', 'i4', 'u2') if big else ('i8', 'u1'):
            for ns in (1, 2):
                yield 'unpack', dict(which=w, ns=ns, dtype=dt)
        for dt in ('u1', 'i1', 'u2', 'i2', 'i8'):
            yield 'narrow', dict(which=w, ns=1, dtype=dt)
            if w in ('2', '2s', '16', '17', '65', '64') or big:
                yield 'narrow', dict(which=w, ns=2, dtype=dt)
    for w in ('1', '2', '2s', '3', '3e', '4') + (('6', '17', '64') if big else ()):
        for ns in (1, 2, 3) if big or w in ('1', '2', '2s') else (1, 2):
            for packed in (False, True):
                for nm in (False, True):
                    for dt in ('i8', 'u1'):
                        yield 'count', dict(which=w, ns=ns, packed=packed, normalize=nm, dtype=dt)
    for dims in ((2,), (2, 3), (3, 1, 2)):
        for form in ('list', 'iter', 'tuple'):
            yield 'members', dict(dims=dims, cplx=form != 'iter', form=form)
    yield 'unequal', dict()
