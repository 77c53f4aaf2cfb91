"""C14: probabilities and expectation values of product measurements."""
import numpy as np

BOUNDS = ('1-5 sites, 1-6 outcomes and dimensions 1-4 per site, ranks 1-3 of measurement and state, all three representations '
          'and "auto", all implementations, arbitrary (not necessarily positive) elements and states, real and complex')
OUTSIDE = 'longer chains, larger dimensions, rounding; the final projection onto probabilities is decided in C27 and replaced here by its argument'

# outcomes, dimensions, ranks of the measurement, ancillas, ranks of the state
SH = {
    1: ([2], [2], [], [2], []),
    '1e': ([1], [2], [], [1], []),
    2: ([2, 2], [2, 2], [1], [1, 2], [2]),
    '2n': ([3, 2], [2, 3], [2], [2, 1], [2]),
    '2s': ([1, 2], [2, 2], [1], [1, 1], [2]),
    '2t': ([3, 1], [2, 1], [2], [1, 2], [1]),
    3: ([2, 2, 2], [2, 2, 2], [1, 1], [1, 1, 1], [2, 2]),
    '3n': ([2, 1, 3], [2, 2, 1], [2, 2], [1, 2, 1], [2, 2]),
    '3l': ([3, 2, 1], [1, 2, 2], [1, 3], [2, 1, 1], [2, 1]),
    '3r': ([1, 2, 3], [2, 1, 2], [2, 1], [1, 1, 2], [1, 2]),
    5: ([2, 1, 2, 1, 2], [1, 2, 1, 2, 1], [1, 2, 1, 2], [1, 1, 2, 1, 1], [2, 1, 2, 1]),
    '2w': ([4, 5], [3, 2], [2], [1, 2], [2]),
    '1w': ([6], [4], [], [2], []),
    '4n': ([2, 1, 2, 1], [1, 2, 2, 1], [2, 2, 1], [2, 1, 1, 1], [2, 1, 2]),
}


def _povm(env, name, out, h, r, cplx):
    return env.mpa(name, [(o, d, d) for o, d in zip(out, h)], r, cplx, cls=env.mp.povm.MPPovm)


def _state(env, mode, name, h, anc, r, cplx, cform=None):
    n = len(h)
    if mode == 'mps':
        st = env.mpa(name, [(x,) for x in h], r, cplx, cform)
    elif mode == 'pmps':
        st = env.mpa(name, list(zip(h, anc)), r, cplx, cform)
    else:
        st = env.mpa(name, list(zip(h, h)), r, cplx, cform)
    return st, _rho(env, mode, env.dense(st), n)


def _rho(env, mode, d, n):
    """Dense operator with legs (i, j) per site."""
    if mode == 'mps':
        rho = env.outer(d, env.conj(d))
    elif mode == 'pmps':
        anc = list(range(1, 2 * n, 2))
        rho = env.tdot(d, env.conj(d), anc, anc)
    else:
        return d
    return rho.transpose([x for k in range(n) for x in (k, n + k)])


def _born(env, e, rho, n):
    """e: legs (outcome, a, b) per site; rho: legs (i, j) per site."""
    return env.tdot(e, rho, [x for k in range(n) for x in (3 * k + 1, 3 * k + 2)],
                    [x for k in range(n) for x in (2 * k + 1, 2 * k)])


def _ptrace(rho, n, keep):
    for k in reversed(range(n)):
        if k not in keep:
            rho = np.trace(rho, axis1=2 * k, axis2=2 * k + 1)
    return np.asarray(rho)


def _ns(shape):
    return tuple(x for x in shape if x > 1)


class Projection(object):
    """Replaces the projection onto probabilities by its argument."""

    def __init__(self, env, eps=1e-10):
        self.env, self.eps, self.calls = env, eps, 0
        self.real = env.mp.utils.pmf.project_pmf
        env.patch(self.real, self)

    def __call__(self, values, imag_eps=1e-10, real_eps=1e-10, real_trunc=0.0):
        self.calls += 1
        self.env.check(imag_eps == self.eps and real_eps == self.eps, 'eps is passed to the projection')
        self.env.check(real_trunc == 0.0, 'nothing else is truncated')
        return values

    def equal(self, fn, expect, what):
        """fn() is the projection of expect."""
        if not self.env.symbolic:
            self.calls = 0
            try:
                got = fn()
            except Exception as e:
                got = e
            if self.calls == 0:      # another route to the projection
                try:
                    expect = self.real(np.array(expect), self.eps, self.eps)
                except AssertionError:
                    self.env.check(isinstance(got, AssertionError), what + ': must be refused')
                    return
            if isinstance(got, Exception):
                raise got
        else:
            got = fn()
        self.env.equal(got, expect, what)


def _capture(env):
    """Symbolically: see the purification the reductions work on and the
    reduced states they produce (only used to split goals, not in replays)."""
    box, reds = [], []
    m = env.mp.mpsmpo
    if env.symbolic:
        real = m.mps_to_pmps

        def mps_to_pmps(mps):
            p = real(mps)
            box.append(p)
            return p
        env.patch(real, mps_to_pmps)
        realr = m.reductions_pmps

        def reductions_pmps(*args, **kw):
            for x in realr(*args, **kw):
                reds.append(env.dense(x))
                yield x
        env.patch(realr, reductions_pmps)
    return box, reds


def pmf(env, which, mode, auto, cplx):
    out, h, pr, anc, r = SH[which]
    n = len(h)
    e = _povm(env, 'e', out, h, pr, cplx[0])
    st, rho = _state(env, mode, 's', h, anc, r, cplx[1])
    sn, sp = env.snapshot(st), env.snapshot(e)
    exp = _born(env, env.dense(e), rho, n)
    p = e.pmf(st) if auto else e.pmf(st, mode)
    env.check(env.shape_of(p) == tuple((x,) for x in out), 'pmf: shape')
    env.equal(env.dense(p), exp, 'pmf(%s)' % mode)
    env.claims(p, 'pmf')
    l = env.mp.povm.MPPovmList([e, e])
    for q in l.pmf(st, mode):
        env.equal(env.dense(q), exp, 'MPPovmList.pmf(%s)' % mode)
    if mode == 'mpdo':
        q = env.mp.dot(e.probability_map, st.ravel())
        env.equal(env.dense(q), exp, 'probability_map')
    env.unchanged(e, sp, 'pmf: measurement')
    env.equal(env.dense(st), env.contract(sn[0])[0, ..., 0], 'pmf: state keeps its value')


def arr(env, which, mode, impl, cplx):
    out, h, pr, anc, r = SH[which]
    n = len(h)
    e = _povm(env, 'e', out, h, pr, cplx[0])
    st, rho = _state(env, mode, 's', h, anc, r, cplx[1])
    exp = _born(env, env.dense(e), rho, n).reshape(_ns(out))
    eps = 1e-3
    p = Projection(env, eps)
    kw = {} if impl is None else {'impl': impl}
    p.equal(lambda: e.pmf_as_array(st, mode, eps=eps, **kw), exp, 'pmf_as_array(%s, %s)' % (mode, impl))
    if mode != 'pmps':
        p.equal(lambda: e.pmf_as_array(st, eps=eps, **(kw if impl in (None, 'default') else {})), exp, 'pmf_as_array(auto)')
    env.check(e.nsoutdims == _ns(out), 'nsoutdims')
    env.check(e.outdims == tuple(out) and e.hdims == tuple(h), 'outdims, hdims')
    env.check(e.nsoutpos == tuple(k for k in range(n) if out[k] > 1), 'nsoutpos')


def arrlist(env, which, mode, cplx):
    """Lists of measurements: one state or one state for each."""
    out, h, pr, anc, r = SH[which]
    n = len(h)
    e = _povm(env, 'e', out, h, pr, cplx[0])
    f = _povm(env, 'f', [x + 1 for x in out], h, pr, cplx[0])
    st, rho = _state(env, mode, 's', h, anc, r, cplx[1])
    s2, rh2 = _state(env, mode, 't', h, anc, r, cplx[1])
    d = [env.dense(e), env.dense(f)]
    eps = 1e-3
    p = Projection(env, eps)
    l = env.mp.povm.MPPovmList(x for x in (e, f))
    it = l.pmf_as_array(st, mode, eps)
    for x in d:
        q = _born(env, x, rho, n)
        p.equal(lambda: next(it), q.reshape(_ns(q.shape)), 'MPPovmList.pmf_as_array')
    it = l.pmfs_as_array([st, s2], mode, eps=eps)
    for x, y in zip(d, (rho, rh2)):
        q = _born(env, x, y, n)
        p.equal(lambda: next(it), q.reshape(_ns(q.shape)), 'MPPovmList.pmfs_as_array')
    it = e.pmfs_as_array([s2, st], mode, eps=eps)
    for y in (rh2, rho):
        q = _born(env, d[0], y, n)
        p.equal(lambda: next(it), q.reshape(_ns(q.shape)), 'MPPovm.pmfs_as_array')
    q = np.array([_born(env, d[0], y, n).reshape(_ns(out)) for y in (rh2, rho)])
    p.equal(lambda: e.pmfs_as_array([s2, st], mode, True, eps), q, 'MPPovm.pmfs_as_array(asarray)')


def windows(env, which, width, fn, mode, cplx, auto=False):
    """The measurement on every window of a longer chain."""
    out, h, pr, anc, r = SH[which]
    n = len(h)
    d0 = h[0]
    out, pr = out[:width], pr[:width - 1]
    e = _povm(env, 'e', out, [d0] * width, pr, cplx[0])
    st, rho = _state(env, mode, 's', [d0] * n, anc, r, cplx[1])
    d = env.dense(st)
    de = env.dense(e)
    eps = 1e-3
    p = Projection(env, eps)
    box, reds = _capture(env)
    if mode == 'pmps':
        box = [st]
    starts = list(range(n - width + 1))
    wins = [(x, x + width) for x in starts]
    elems = [e] * len(wins)
    if fn == 'expectations':
        it = e.expectations(st) if auto else e.expectations(st, mode)
    elif fn == 'block':
        it = e.block_pmfs_as_array(st, mode, eps=eps)
    elif fn == 'blockw':
        wins = wins[::-1]
        it = e.block_pmfs_as_array(st, mode, eps=eps, startsites=[x for x, _ in wins], width=width)
    elif fn == 'list':
        elems = [_povm(env, 'e%d' % k, out, [d0] * width, pr, cplx[0]) for k in starts]
        it = env.mp.povm.MPPovmList(elems).block_pmfs_as_array(st, mode, eps=eps)
    it = iter(it)
    for (x, y), el in zip(wins, elems):
        what = '%s(%s) on [%d, %d)' % (fn, mode, x, y)
        if fn == 'expectations':
            t = next(it)
            got = env.dense(t)
        elif env.symbolic:
            got = next(it)
        ro = rho
        if env.symbolic and mode != 'mpdo' and len(box) == 1 and all(len(q) == 2 for q in env.shape_of(box[0])):
            dn = env.dense(box[0])
            env.equal(dn, d.reshape(dn.shape), what + ': state keeps its value')
            ro = _rho(env, 'pmps', dn, n)
        exp = _ptrace(ro, n, range(x, y))
        if len(reds) == 1 and reds[0].ndim == 2 * width:
            red = _rho(env, 'pmps', reds.pop(), width)
            env.equal(red, exp, what + ': reduced state')
            exp = red
        exp = _born(env, env.dense(el), exp, width)
        if fn == 'expectations':
            env.equal(got, exp, what)
        else:
            exp = exp.reshape(_ns(exp.shape))
            p.equal((lambda: got) if env.symbolic else (lambda: next(it)), exp, what)
    env.check(next(it, None) is None, 'number of windows')
    env.equal(env.dense(st), d, 'state keeps its value')


def _dense_eye(env, e, pos, dims, out):
    """Dense elements with e on sites [pos, pos + n) and identities elsewhere."""
    n = (e.ndim // 3)
    res = e
    for k in reversed(range(pos)):
        res = env.outer(np.eye(dims[k]).reshape((1, dims[k], dims[k])), res)
    for k in range(pos + n, len(dims)):
        res = env.outer(res, np.eye(dims[k]).reshape((1, dims[k], dims[k])))
    return res


def embed(env, which, total, cplx):
    out, h, pr, anc, r = SH[which]
    n = len(h)
    e = _povm(env, 'e', out, h, pr, cplx)
    de = env.dense(e)
    sn = env.snapshot(e)
    pos = env.choose('pos', range(total - n + 1))
    dims = [2, 1, 3, 2, 1][:total]
    dims[pos:pos + n] = h
    f = e.embed(total, pos, tuple(dims))
    env.equal(env.dense(f), _dense_eye(env, de, pos, dims, out), 'embed')
    env.check(isinstance(f, env.mp.povm.MPPovm), 'embed: class')
    env.claims(f, 'embed')
    ud = env.choose('dim', [1, 2])
    dims = [ud] * total
    dims[pos:pos + n] = h
    f = e.embed(total, pos, ud)
    env.equal(env.dense(f), _dense_eye(env, de, pos, dims, out), 'embed, one dimension')
    env.raises(AssertionError, lambda: e.embed(total, total - n + 1, ud), 'embed: does not fit')
    env.unchanged(e, sn, 'embed')


def block(env, out, width, total, cplx):
    e = _povm(env, 'e', out, [2] * width, [2] * (width - 1), cplx)
    f = _povm(env, 'f', out[::-1], [2] * width, [1] * (width - 1), cplx)
    b = e.block(total)
    exp = [_dense_eye(env, env.dense(e), k, [2] * total, out) for k in range(total - width + 1)]
    ex2 = [_dense_eye(env, env.dense(f), k, [2] * total, out) for k in range(total - width + 1)]
    env.check(len(b.mpps) == len(exp), 'block: number')
    for x, y in zip(b.mpps, exp):
        env.equal(env.dense(x), y, 'block')
    b = env.mp.povm.MPPovmList([e, f]).block(total)
    env.check(len(b.mpps) == 2 * len(exp), 'MPPovmList.block: number')
    for x, y in zip(b.mpps, [z for q in zip(exp, ex2) for z in q]):
        env.equal(env.dense(x), y, 'MPPovmList.block')


def repeat(env, which, total, cplx):
    out, h, pr, anc, r = SH[which]
    n = len(h)
    e = _povm(env, 'e', out, h, pr, cplx)
    f = _povm(env, 'f', [x + 1 for x in out], h, pr, cplx)
    sn = env.snapshot(e)
    rest = total % n

    def exp(x):
        lts = list(x.lt)
        res = None
        for k in range(total // n):
            res = env.dense(x) if res is None else env.outer(res, env.dense(x))
        if rest:
            t = env.contract(lts[:rest])[0, ..., 0]
            res = t if res is None else env.outer(res, t)
        return res
    if rest and pr[rest - 1] != 1:
        env.raises(AssertionError, lambda: e.repeat(total), 'repeat: does not factorise')
        return
    g = e.repeat(total)
    env.equal(env.dense(g), exp(e), 'repeat')
    env.check(len(g) == total, 'repeat: length')
    env.claims(g, 'repeat')
    l = env.mp.povm.MPPovmList([e, f]).repeat(total)
    for x, y in zip(l.mpps, (e, f)):
        env.equal(env.dense(x), exp(y), 'MPPovmList.repeat')
    env.unchanged(e, sn, 'repeat')


def elements(env, which, cplx):
    out, h, pr, anc, r = SH[which]
    n = len(h)
    e = _povm(env, 'e', out, h, pr, cplx)
    de = env.dense(e)
    idx = list(np.ndindex(*out))
    els = list(e.elements)
    env.check(len(els) == len(idx), 'elements: number')
    for i, x in zip(idx, els):
        sel = tuple(y for k in i for y in (k, slice(None), slice(None)))
        env.equal(env.dense(x), de[sel], 'elements: element %r' % (i,))


def bad(env):
    M = env.mp.povm.MPPovm
    env.raises(AssertionError, lambda: env.mpa('a', [(2, 2, 3)], [], cls=M), 'dimension mismatch')
    env.raises(AssertionError, lambda: env.mpa('b', [(2, 2), (2, 2)], [2], cls=M), 'number of legs')
    e = _povm(env, 'e', [2, 2], [2, 2], [1], False)
    s = env.mpa('s', [(2,)], [])
    env.raises(AssertionError, lambda: e.pmf(s), 'state shorter than the measurement')
    env.raises(AssertionError, lambda: list(e.expectations(s)), 'state shorter than the measurement')
    t = env.mpa('t', [(2, 2, 1)] * 2, [1])
    env.raises(ValueError, lambda: e.pmf(t), 'no such representation')
    f = _povm(env, 'f', [2], [2], [], False)
    env.raises(AssertionError, lambda: env.mp.povm.MPPovmList([e, f]), 'list of different lengths')


def configs(tier):
    big = tier != 'quick'
    cs = [(False, False), (True, True), (True, False), (False, True)]
    for w in SH:
        n = len(SH[w][0])
        for c in cs:
            for mode in ('mps', 'pmps', 'mpdo'):
                if n > 3 and mode == 'pmps' and not big and c[0] != c[1]:
                    continue
                yield 'pmf', dict(which=w, mode=mode, auto=mode != 'pmps', cplx=c)
                for impl in {'mps': (None, 'auto', 'default'), 'mpdo': (None, 'default'),
                             'pmps': (None, 'pmps-ltr', 'pmps-symm', 'default')}[mode]:
                    yield 'arr', dict(which=w, mode=mode, impl=impl, cplx=c)
        for c in (False, True):
            yield 'elements', dict(which=w, cplx=c)
            if n <= 2 and w not in ('1w', '2w'):
                for tot in range(n, 5 if big else 4):
                    yield 'embed', dict(which=w, total=tot, cplx=c)
                for tot in range(1, 6):
                    if tot >= n or tot % n:
                        yield 'repeat', dict(which=w, total=tot, cplx=c)
    for c in (False, True):
        for w, tots in (('3n', (1, 2, 3, 4)), (3, (1, 2, 3, 4) if big else (1, 2, 3)), ('3l', (1, 2, 4)), ('3r', (1, 2, 3))):
            for tot in tots:
                yield 'repeat', dict(which=w, total=tot, cplx=c)
        for out, width in (([2], 1), ([3, 2], 2), ([1, 2], 2)):
            for tot in range(width, width + 3):
                yield 'block', dict(out=out, width=width, total=tot, cplx=c)
    for w in (1, 2, '2n', '2s', '3r'):
        for mode in ('mps', 'pmps', 'mpdo'):
            for c in (cs[:2] if not big else cs):
                yield 'arrlist', dict(which=w, mode=mode, cplx=c)
    for w in (2, '2n', 3, '3n', '3r') + (('4n',) if big else ()):
        n = len(SH[w][0])
        for width in range(1, n + 1):
            for mode in ('mps', 'pmps', 'mpdo'):
                for c in cs[:2]:
                    yield 'windows', dict(which=w, width=width, fn='expectations', mode=mode, cplx=c, auto=mode != 'pmps')
                    yield 'windows', dict(which=w, width=width, fn='block', mode=mode, cplx=c)
                    yield 'windows', dict(which=w, width=width, fn='list', mode=mode, cplx=c)
                    if n < 3 or big or c[0]:
                        yield 'windows', dict(which=w, width=width, fn='blockw', mode=mode, cplx=c)
    yield 'bad', dict()
