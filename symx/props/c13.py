"""C13: conversions between MPS, PMPS and MPO; reduced states."""
import numpy as np

BOUNDS = ('1-4 sites, system dimensions 1-3, ancilla dimensions 1-3, ranks 1-3, every window of the chain in ascending, descending and mixed '
          'order, every documented way of giving windows, every non-empty support, real and complex, canonical-form claims up to 3 sites; '
          'single configurations with 5 and 6 sites, system dimension 4, ancilla dimension 3, rank 4')
OUTSIDE = 'longer chains, larger dimensions, rounding; empty windows; QR through its contract'

# system dimensions, ancilla dimensions, ranks
SH = {
    1: ([2], [2], []),
    '1w': ([3], [1], []),
    2: ([2, 2], [2, 1], [2]),
    '2n': ([2, 3], [1, 2], [2]),
    '2b': ([2, 2], [1, 2], [3]),
    3: ([2, 2, 2], [1, 1, 1], [2, 2]),
    '3n': ([2, 1, 3], [1, 2, 1], [2, 2]),
    '3a': ([2, 2, 1], [2, 1, 2], [2, 1]),
    '3r': ([2, 2, 2], [1, 2, 1], [1, 3]),
    4: ([2, 1, 2, 2], [1, 2, 1, 1], [2, 2, 2]),
    5: ([2, 1, 2, 1, 2], [1, 2, 1, 1, 1], [2, 1, 2, 2]),
    6: ([1, 2, 1, 2, 1, 2], [1, 1, 1, 2, 1, 1], [2, 1, 2, 1, 2]),
    '2w': ([4, 3], [1, 2], [2]),
    '2x': ([2, 2], [3, 2], [4]),
}


def _rho_of_phi(env, d, n):
    """d: legs (sys, anc) per site -> legs (i, j) per site."""
    anc = list(range(1, 2 * n, 2))
    rho = env.tdot(d, env.conj(d), anc, anc)
    return rho.transpose([x for k in range(n) for x in (k, n + k)])


def _rho_of_psi(env, d, n):
    rho = env.outer(d, env.conj(d))
    return rho.transpose([x for k in range(n) for x in (k, n + k)])


def _ptrace(env, rho, n, keep):
    """Legs (i, j) per site; trace the sites which are not kept."""
    for k in reversed(range(n)):
        if k not in keep:
            rho = np.trace(rho, axis1=2 * k, axis2=2 * k + 1)
    return np.asarray(rho)


def _windows(n, order):
    w = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    if order == 'down':
        w = w[::-1]
    elif order == 'mixed':
        w = w[::2][::-1] + w[1::2]
    elif order == 'twice':
        w = [w[-1], w[0], w[0], w[-1], w[len(w) // 2]]
    return w


def _state(env, mode, which, cplx, cform):
    s, a, r = SH[which]
    n = len(s)
    if mode == 'mps':
        st = env.mpa('a', [(x,) for x in s], r, cplx, cform)
        d = env.dense(st)
        return st, d, _rho_of_psi(env, d, n), n
    if mode == 'pmps':
        st = env.mpa('a', list(zip(s, a)), r, cplx, cform)
        d = env.dense(st)
        return st, d, _rho_of_phi(env, d, n), n
    st = env.mpa('a', list(zip(s, s)), r, cplx, cform)
    d = env.dense(st)
    return st, d, d, n


def _as_rho(env, red, mode, n):
    d = env.dense(red)
    return _rho_of_phi(env, d, n) if mode == 'pmps' else d


def _capture(env, m):
    """Symbolically: see the purification which the reductions of an MPS
    work on (only used to split the goal, never in a replay)."""
    box = []
    if env.symbolic:
        real = m.mps_to_pmps

        def mps_to_pmps(mps):
            p = real(mps)
            box.append(p)
            return p
        env.patch(real, mps_to_pmps)
    return box


def red(env, mode, fn, which, spec, order, lazy, cplx, cform=None):
    """All windows in the given order; spec: how the windows are given."""
    m = env.mp.mpsmpo
    st, d, rho, n = _state(env, mode, which, cplx, cform)
    s, a, r = SH[which]
    if spec == 'stop':
        w = _windows(n, order)
        kw = dict(startsites=[x for x, _ in w], stopsites=[y for _, y in w])
    elif spec == 'one':
        w = [env.choose('window', _windows(n, 'up'))]
        kw = dict(startsites=[w[0][0]], stopsites=[w[0][1]])
    elif spec == 'pair':
        ws = _windows(n, 'up')
        w = list(env.choose('windows', [(x, y) for x in ws for y in ws]))
        kw = dict(startsites=[x for x, _ in w], stopsites=[y for _, y in w])
    elif spec == 'iter':
        w = _windows(n, order)
        kw = dict(startsites=iter([x for x, _ in w]), stopsites=iter([y for _, y in w]))
    elif spec == 'width':
        k = env.choose('width', range(1, n + 1))
        w = [(i, i + k) for i in range(n - k + 1)]
        kw = dict(width=k)
    else:
        k = env.choose('width', range(1, n + 1))
        w = [(i, i + k) for i in range(n - k + 1)]
        w = w[::-1] if order == 'down' else w
        kw = dict(width=k, startsites=iter([x for x, _ in w]))
    out = {'mps': 'pmps', 'pmps': 'pmps', 'mpdo': 'mpdo'}[mode]
    box = [st]
    if mode == 'mps':
        box = _capture(env, m)

    def dense_now():
        if not env.symbolic or mode == 'mpdo' or len(box) != 1 or any(len(x) != 2 for x in env.shape_of(box[0])):
            return None
        return env.dense(box[0])
    if fn == 'reductions':
        it, om = m.reductions(st, mode, **kw)
        env.check(om == out, 'reductions: mode of the result')
    elif fn == 'as_mpo':
        it, out = m.reductions_mps_as_mpo(st, **kw), 'mpdo'
    else:
        it = {'mps': m.reductions_mps_as_pmps, 'pmps': m.reductions_pmps, 'mpdo': m.reductions_mpo}[mode](st, **kw)
    got = 0
    what = 'reduction of %s' % mode
    if not lazy:
        it = [(t, dense_now()) for t in it]
    else:
        it = ((t, dense_now()) for t in it)
    for (x, y), (t, dn) in zip(w, it):
        got += 1
        if dn is not None:
            # two goals which together imply the one below
            env.equal(dn, d.reshape(dn.shape), what + ': state keeps its value')
            rho = _rho_of_phi(env, dn, n)
        env.check(len(t) == y - x, what + ': number of sites')
        env.check(tuple(q[0] for q in env.shape_of(t)) == tuple(s[x:y]), what + ': dimensions')
        env.equal(_as_rho(env, t, out, y - x), _ptrace(env, rho, n, range(x, y)), what + ' to [%d, %d)' % (x, y))
        env.claims(t, what)
    env.check(got == len(w), what + ': number of results')
    env.equal(env.dense(st), d, what + ': state keeps its value')
    env.claims(st, what + ': state')


def support(env, which, cplx, cform=None):
    m = env.mp.mpsmpo
    st, d, rho, n = _state(env, 'pmps', which, cplx, cform)
    sup = env.choose('support', [[k for k in range(n) if b >> k & 1] for b in range(1, 2 ** n)])
    typ = env.choose('type', ['list', 'set', 'tuple', 'rev'] if n < 4 else ['set'])
    arg = {'list': list, 'set': set, 'tuple': tuple, 'rev': lambda x: list(x)[::-1]}[typ](sup)
    red = m.pmps_reduction(st, arg)
    lo, hi = min(sup), max(sup) + 1
    what = 'pmps_reduction(%r)' % (sup,)
    env.check(len(red) == hi - lo, what + ': number of sites')
    for k in range(lo, hi):
        env.check(red.lt[k - lo].shape[1] == (st.lt[k].shape[1] if k in sup else 1), what + ': system dimension')
    got = _rho_of_phi(env, env.dense(red), hi - lo)
    if env.symbolic:
        dn = env.dense(st)
        env.equal(dn, d, what + ': state keeps its value')
        rho = _rho_of_phi(env, dn, n)
    exp = _ptrace(env, rho, n, sup)
    shape = [x for k in range(lo, hi) for x in ((SH[which][0][k],) * 2 if k in sup else (1, 1))]
    env.equal(got, exp.reshape(shape), what)
    full = m.pmps_dm_to_array(red)
    keep = [x for k in sup for x in [SH[which][0][k]] * 2 if x > 1]
    if env.symbolic:
        exp = _rho_of_phi(env, env.dense(red), hi - lo)
    env.equal(full, exp.reshape(keep), what + ': dense')
    env.equal(env.dense(st), d, what + ': state keeps its value')


def dm(env, which, cplx, glob, cform=None):
    m = env.mp.mpsmpo
    st, d, rho, n = _state(env, 'pmps', which, cplx, cform)
    dims = [x for x in SH[which][0] if x > 1]
    exp = rho.reshape([x for x in dims for _ in (0, 1)])
    got = m.pmps_dm_to_array(st, global_=True) if glob else m.pmps_dm_to_array(st)
    if glob:
        k = len(dims)
        exp = exp.transpose([2 * i for i in range(k)] + [2 * i + 1 for i in range(k)])
    env.equal(got, exp, 'pmps_dm_to_array(global_=%r)' % glob)
    env.equal(env.dense(st), d, 'pmps_dm_to_array: state keeps its value')


def conv(env, which, cplx, cform=None):
    m = env.mp.mpsmpo
    st, d, rho, n = _state(env, 'mps', which, cplx, cform)
    s, a, r = SH[which]
    sn = env.snapshot(st)
    p = m.mps_to_pmps(st)
    env.check(env.shape_of(p) == tuple((x, 1) for x in s), 'mps_to_pmps: shape')
    env.equal(env.dense(p), d.reshape([x for y in s for x in (y, 1)]), 'mps_to_pmps')
    env.claims(p, 'mps_to_pmps')
    q = m.pmps_to_mps(p)
    env.equal(env.dense(q), d, 'pmps_to_mps')
    env.claims(q, 'pmps_to_mps')
    o = m.mps_to_mpo(st)
    env.check(env.shape_of(o) == tuple((x, x) for x in s), 'mps_to_mpo: shape')
    env.equal(env.dense(o), rho, 'mps_to_mpo')
    env.claims(o, 'mps_to_mpo')
    env.unchanged(st, sn, 'conversions')


def pconv(env, which, cplx, cform=None):
    m = env.mp.mpsmpo
    st, d, rho, n = _state(env, 'pmps', which, cplx, cform)
    s, a, r = SH[which]
    sn = env.snapshot(st)
    o = m.pmps_to_mpo(st)
    env.check(env.shape_of(o) == tuple((x, x) for x in s), 'pmps_to_mpo: shape')
    env.equal(env.dense(o), rho, 'pmps_to_mpo')
    env.claims(o, 'pmps_to_mpo')
    if any(x != 1 for x in a):
        env.raises(AssertionError, lambda: m.pmps_to_mps(st), 'pmps_to_mps with ancillas')
    env.unchanged(st, sn, 'pmps_to_mpo')


def bad(env):
    m = env.mp.mpsmpo
    a = env.mpa('a', [(2, 2), (2, 2)], [2])
    b = env.mpa('b', [(2,), (2,)], [2])
    env.raises(AssertionError, lambda: list(m.reductions_mpo(b, 1)), 'reductions_mpo of an MPS')
    env.raises(AssertionError, lambda: m.mps_to_pmps(a), 'mps_to_pmps of an MPO')
    env.raises(AssertionError, lambda: list(m.reductions_mpo(a)), 'no window')
    env.raises(AssertionError, lambda: list(m.reductions_mpo(a, width=1, startsites=[0], stopsites=[1])), 'width and stopsites')
    env.raises(AssertionError, lambda: list(m.reductions_pmps(a, stopsites=[1])), 'stopsites alone')
    env.raises(ValueError, lambda: m.reductions(a, 'mpo', width=1), 'unknown mode')
    env.raises(AssertionError, lambda: m.pmps_reduction(a, []), 'empty support')
    env.raises(AssertionError, lambda: m.pmps_reduction(a, [2]), 'support out of range')


def configs(tier):
    big = tier != 'quick'
    lim = dict(limit=400 if big else 90)
    for w in (5, 6):
        for c in (False, True):
            yield 'conv', dict(which=w, cplx=c, cform=None)
            yield 'pconv', dict(which=w, cplx=c, cform=None)
            yield 'dm', dict(which=w, cplx=c, glob=False, cform=None)
            yield 'dm', dict(which=w, cplx=c, glob=True, cform=None)
            yield 'red', dict(mode='mpdo', fn='direct', which=w, spec='one', order='up', lazy=True, cplx=c, cform=None)
            yield 'red', dict(mode='mpdo', fn='reductions', which=w, spec='iter', order='mixed', lazy=True, cplx=c)
            if not c or big:
                yield 'support', dict(which=w, cplx=c, cform=None), dict(limit=400, cost=9)
                for mode in ('mps', 'pmps'):
                    yield 'red', dict(mode=mode, fn='direct', which=w, spec='one', order='up', lazy=True, cplx=c, cform=None), dict(limit=400, cost=9)
    for w in sorted(set(SH) - {5, 6}, key=str):
        n = len(SH[w][0])
        cfs = [None]
        if n > 1 and w not in ('2b', '3r', '2x') and (n < 4 or big):
            cfs += [(n - 1, n), (0, 1)] + ([(n // 2, n // 2 + 1)] if n > 2 else [])
        uni = len(set(x for x in SH[w][0] if x > 1)) == 1
        for c in (False, True):
            for cf in cfs:
                yield 'conv', dict(which=w, cplx=c, cform=cf)
                yield 'pconv', dict(which=w, cplx=c, cform=cf)
                yield 'dm', dict(which=w, cplx=c, glob=False, cform=cf)
                if uni:
                    yield 'dm', dict(which=w, cplx=c, glob=True, cform=cf)
                if n in (2, 3) or n == 4 and (big or not c):
                    yield 'support', dict(which=w, cplx=c, cform=cf), lim
                yield 'red', dict(mode='mpdo', fn='direct', which=w, spec='one', order='up', lazy=True, cplx=c, cform=cf)
                yield 'red', dict(mode='mps', fn='direct', which=w, spec='one', order='up', lazy=True, cplx=c, cform=cf), lim
                if n < 4 or big or not c:
                    yield 'red', dict(mode='pmps', fn='direct', which=w, spec='one', order='up', lazy=True, cplx=c, cform=cf), lim
            if n == 1:
                continue
            for o in ('up', 'down', 'mixed', 'twice'):
                yield 'red', dict(mode='mpdo', fn='direct', which=w, spec='stop', order=o, lazy=o in ('up', 'twice'), cplx=c)
            for mode in ('mps', 'pmps', 'mpdo'):
                if mode == 'mpdo' or n < 4 or big:
                    yield 'red', dict(mode=mode, fn='direct', which=w, spec='pair', order='up', lazy=c, cplx=c)
                    yield 'red', dict(mode=mode, fn='direct', which=w, spec='start', order='down', lazy=True, cplx=c)
                    yield 'red', dict(mode=mode, fn='reductions', which=w, spec='width', order='up', lazy=False, cplx=c)
                    yield 'red', dict(mode=mode, fn='reductions', which=w, spec='iter', order='mixed', lazy=True, cplx=c)
            if n < 4 or big:
                yield 'red', dict(mode='mps', fn='as_mpo', which=w, spec='one', order='up', lazy=False, cplx=c)
                yield 'red', dict(mode='mps', fn='as_mpo', which=w, spec='width', order='up', lazy=True, cplx=c)
    yield 'bad', dict()
