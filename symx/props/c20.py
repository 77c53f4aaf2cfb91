"""C20: eigenvector search."""
import numpy as np

BOUNDS = {'sites': '2..4', 'leg dimensions': '2..3 (also 1 inside)', 'ranks of operators': '1..2',
          'ranks of states': '1..2', 'window': '1..3 sites', 'sweeps': '1..2',
          'operators': 'one, or sums of 1..3 operators and state projectors; every entry symbolic, not necessarily Hermitian',
          'eigensolver': 'any answer (every entry of the vector symbolic), all accepted return forms; scipy.eigsh by default'}
OUTSIDE = ('longer chains, larger dimensions and ranks; convergence of the search; the numerical '
           'eigensolver itself (its answer is arbitrary); SVD and QR through their contracts; rounding')

# leg dimensions, state ranks
SH = {
    2: ([2, 2], [2]), '2n': ([2, 3], [2]), '2m': ([3, 2], [2]),
    3: ([2, 2, 2], [2, 2]), '3n': ([2, 1, 2], [2, 2]), '3w': ([2, 3, 2], [2, 2]), '3r': ([3, 2, 2], [3, 2]),
    5: ([2, 1, 2, 1, 2], [2, 2, 2, 2]), '2w': ([4, 3], [3]),
    4: ([2, 2, 2, 2], [2, 2, 2]), '4n': ([2, 1, 2, 2], [2, 2, 2]), '4f': ([2, 2, 2, 2], [2, 4, 2]),
}


def _sequence(n, vs, sweeps):
    out = []
    for k in range(sweeps):
        out += [p for p in range(n - vs + 1) if not (p == 0 and k > 0)]
        out += list(reversed(range(n - vs)))
    return out


def _apply(env, op, lts, left, right):
    """<L| op |R> for lists of state tensors, outer legs kept at the ends:
    result [bra_l, ket_l, bra_r, ket_r] contracted over all sites."""
    acc = None
    for o, a, b in zip(op, left, right):
        o, a, b = env.raw(o), env.raw(a), env.raw(b)
        # o [m, i, j, m'], a bra [x, i, x'], b ket [y, j, y']
        t = env.tdot(env.conj(a), o, [1], [1])       # x x' m j m'
        t = env.tdot(t, b, [3], [1])                 # x x' m m' y y'
        t = t.transpose(0, 2, 4, 1, 3, 5)            # x m y x' m' y'
        acc = t if acc is None else env.tdot(acc, t, [3, 4, 5], [0, 1, 2])
    return acc


def _left(env, op, lts):
    if not lts:
        return np.ones((1, 1, 1))
    return _apply(env, op, None, lts, lts)[0, 0, 0]


def _right(env, op, lts):
    if not lts:
        return np.ones((1, 1, 1))
    return _apply(env, op, None, lts, lts)[:, :, :, 0, 0, 0]


def _local(env, op, lts, pos, vs):
    """The restriction of the operator to the window, [bra, ket]."""
    l = _left(env, op[:pos], lts[:pos])
    r = _right(env, op[pos + vs:], lts[pos + vs:])
    mid = env.contract(op[pos:pos + vs])             # m i j i j .. m'
    k = vs
    perm = [0] + [1 + 2 * q for q in range(k)] + [2 + 2 * q for q in range(k)] + [2 * k + 1]
    mid = mid.transpose(perm)
    d = int(np.prod(mid.shape[1:1 + k]))
    mid = mid.reshape((mid.shape[0], d, d, mid.shape[-1]))
    t = env.tdot(l, mid, [1], [0])                   # x y i j m'
    t = env.tdot(t, r, [4], [1])                     # x y i j x' y'
    t = t.transpose(0, 2, 4, 1, 3, 5)
    s = t.shape
    return t.reshape((s[0] * s[1] * s[2], -1))


def _projector(env, m):
    """Operator tensors of |m><m|."""
    out = []
    for t in m.lt:
        t = env.raw(t)
        o = env.outer(t, env.conj(t))                # a i b  a' j b'
        o = o.transpose(0, 3, 1, 4, 2, 5)
        s = o.shape
        out.append(o.reshape((s[0] * s[1], s[2], s[3], s[4] * s[5])))
    return out


def _state(env, lts, pos, vs, x, dims):
    """Dense state with the window tensor x."""
    l = env.contract(lts[:pos])[0] if pos else np.ones((1,))
    r = env.contract(lts[pos + vs:])[..., 0] if pos + vs < len(lts) else np.ones((1,))
    x = x.reshape((l.shape[-1],) + tuple(dims[pos:pos + vs]) + (r.shape[0],))
    t = env.tdot(l, x, [l.ndim - 1], [0])
    return env.tdot(t, r, [t.ndim - 1], [0])


def _iso(env, lts, pos, vs, what):
    for k, t in enumerate(lts):
        if k < pos:
            m = t.reshape((-1, t.shape[-1]))
            env.equal(env.tdot(env.conj(m), m, [0], [0]), np.eye(m.shape[1]), what + ': orthonormal to the left')
        elif k >= pos + vs:
            m = t.reshape((t.shape[0], -1))
            env.equal(env.tdot(m, env.conj(m), [1], [1]), np.eye(m.shape[0]), what + ': orthonormal to the right')


def _exact(lts, dims, pos, vs):
    """Can the window be split into sites without cutting?"""
    cap = max(t.shape[0] for t in lts[pos:pos + vs])
    l, r = lts[pos].shape[0], lts[pos + vs - 1].shape[-1]
    return all(min(l * int(np.prod(dims[pos:b])), int(np.prod(dims[b:pos + vs])) * r) <= cap
               for b in range(pos + 1, pos + vs))


def _watch(env, start):
    """Copies of states like `start`: the search works on one of them."""
    cls = env.mp.MPArray
    real = cls.__dict__['copy']
    states = []

    def copy(self):
        c = real(self)
        if c.shape == start.shape:
            states.append(c)
        return c
    env.patch_attr(cls, 'copy', copy)
    return states


def _current(env, states, pos, vs, v0):
    """The state whose tensors in the window are the initial guess."""
    for psi in reversed(states):
        if v0 is None:
            return psi
        w = env.contract(list(psi.lt)[pos:pos + vs])
        if w.size == v0.size and env.same(env.raw(w).reshape((-1,)), env.raw(v0)):
            return psi
    return None


def search(env, which, mpas, vs, sweeps, cplx, steps=None, form=0, cform=None, opcplx=None, default=False):
    """mpas: None for eig(); else a list of 'o' and 's' for eig_sum().
    steps: stop checking after that many steps."""
    dims, ranks = SH[which]
    n = len(dims)
    opc = cplx if opcplx is None else opcplx
    objs, tens = [], []
    for q, kind in enumerate(mpas or ['o']):
        oc = opc[q] if isinstance(opc, (list, tuple)) else opc
        if kind[0] == 'o':
            m = env.mpa('H%d' % q, [(d, d) for d in dims], [int(kind[1:] or 1)] * (n - 1), oc)
            tens.append([env.raw(t) for t in m.lt])
        else:
            m = env.mpa('S%d' % q, [(d,) for d in dims], [int(kind[1:] or 1)] * (n - 1), oc)
            tens.append(_projector(env, m))
        objs.append(m)
    snaps = [env.snapshot(m) for m in objs]
    start = env.mpa('p', [(d,) for d in dims], ranks, cplx, cform)
    ssnap = env.snapshot(start)
    states = _watch(env, start)
    seq = _sequence(n, vs, sweeps)
    hist = []

    def eigs(op, v0=None):
        k = len(hist)
        env.check(k < len(seq), 'number of steps')
        pos = seq[k]
        what = 'step %d' % k
        psi = _current(env, states, pos, vs, v0)
        if psi is None:
            # the state cannot be observed: nothing to compare the step with
            size = op.shape[0]
            env.check(op.shape == (size, size), what + ': size of the local operator')
            x = env.tensor('x%d' % k, (size,), op.dtype.kind == 'c')
            lam = env.tensor('l%d' % k, (1,), False)
            hist.append(dict(pos=pos, op=op, x=x, lam=lam, exact=False))
            return lam, x.reshape((size, 1))
        lts = [env.raw(t) for t in psi.lt]
        if steps is None or k in steps:
            _iso(env, lts, pos, vs, what)
            want = 0
            for t in tens:
                want = want + _local(env, t, lts, pos, vs)
            env.equal(op, want, what + ': local operator')
            if k and hist[-1]['exact']:
                env.equal(env.dense(psi), hist[-1]['state'], what + ': solution of the previous step is written back')
        dl = lts[pos].shape[0]
        dr = lts[pos + vs - 1].shape[-1]
        size = dl * int(np.prod(dims[pos:pos + vs])) * dr
        env.check(op.shape == (size, size), what + ': size of the local operator')
        env.check(v0 is None or v0.shape == (size,), what + ': size of the initial guess')
        x = env.tensor('x%d' % k, (size,), op.dtype.kind == 'c')
        lam = env.tensor('l%d' % k, (1,), False)
        hist.append(dict(pos=pos, op=op, x=x, lam=lam, exact=_exact(lts, dims, pos, vs),
                         state=_state(env, lts, pos, vs, env.raw(x), dims)))
        if form == 0:
            return lam, x.reshape((size, 1))
        if form == 1:
            return lam, x
        return lam[0:1].reshape(()), x
    kw = {'eigs': eigs}
    if default:
        # scipy's solver: one eigenpair of largest magnitude, precise to 1e-6
        def eigsh(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0,
                  return_eigenvectors=True, **more):
            env.check(k == 1, 'one eigenpair')
            env.check(which == 'LM' and M is None and sigma is None, 'largest magnitude by default')
            env.check(0 <= tol <= 1e-6, 'tolerance')
            env.check(return_eigenvectors is True and not more, 'eigenvectors are asked for')
            return eigs(A, v0)
        env.sparse_hook('eigsh', eigsh)
        kw = {} if default == 'left out' else {'eigs': None}
    if mpas is None:
        val, vec = env.mp.linalg.eig(objs[0], sweeps, vs, startvec=start, **kw)
    else:
        arg = objs if form != 1 else iter(objs)
        val, vec = env.mp.linalg.eig_sum(arg, sweeps, vs, startvec=start, **kw)
    env.check(len(hist) == len(seq), 'number of steps')
    last = hist[-1]
    env.equal(val, env.raw(last['lam'])[0], 'eigenvalue of the last step')
    env.check(env.shape_of(vec) == tuple((d,) for d in dims), 'shape of the state')
    env.check(max(vec.ranks) <= max(ranks), 'rank of the state')
    lts = [env.raw(t) for t in vec.lt]
    _iso(env, lts, 0, vs, 'result')
    if steps is None or len(seq) in steps:
        want = 0
        for t in tens:
            want = want + _local(env, t, lts, 0, vs)
        env.equal(last['op'], want, 'local operator of the last step')
        if last['exact']:
            env.equal(env.dense(vec), _state(env, lts, 0, vs, env.raw(last['x']), dims),
                      'solution of the last step is returned')
    env.unchanged(start, ssnap, 'start vector')
    for m, s in zip(objs, snaps):
        env.unchanged(m, s, 'operator')


def random_start(env, which, summed, vs, rank, cplx):
    """The start vector drawn by the search itself."""
    dims, _ = SH[which]
    n = len(dims)
    h = env.mpa('H', [(d, d) for d in dims], [1] * (n - 1), cplx)
    seq = _sequence(n, vs, 1)
    hist = []

    def eigs(op, v0=None):
        k = len(hist)
        size = op.shape[0]
        env.check(op.shape == (size, size), 'the local operator is square')
        pos = seq[k]
        if k == 0:
            env.check(v0.shape == (size,), 'size of the initial guess')
            env.check(v0.dtype.kind == 'c', 'the start vector is complex')
            full = min(int(np.prod(dims[:vs])), int(np.prod(dims[vs:])), rank)
            env.check(size == int(np.prod(dims[:vs])) * full, 'rank of the start vector')
        x = env.tensor('x%d' % k, (size,), True)
        lam = env.tensor('l%d' % k, (1,), False)
        hist.append((op, x, lam))
        return lam, x.reshape((size, 1))
    kw = dict(startvec_rank=rank, randstate=env.rng('start'), eigs=eigs)
    if summed:
        val, vec = env.mp.linalg.eig_sum([h], 1, vs, **kw)
    else:
        val, vec = env.mp.linalg.eig(h, 1, vs, **kw)
    env.check(len(hist) == len(seq), 'number of steps')
    op, x, lam = hist[-1]
    env.equal(val, env.raw(lam)[0], 'eigenvalue of the last step')
    env.check(max(vec.ranks) <= rank, 'rank of the state')
    lts = [env.raw(t) for t in vec.lt]
    _iso(env, lts, 0, vs, 'result')
    env.equal(op, _local(env, [env.raw(t) for t in h.lt], lts, 0, vs), 'local operator of the last step')
    if vs == 1:
        env.equal(env.dense(vec), _state(env, lts, 0, vs, env.raw(x), dims), 'solution of the last step is returned')


def refuse(env, what):
    dims, ranks = SH[3]
    h = env.mpa('H', [(d, d) for d in dims], [1, 1], False)
    s = env.mpa('p', [(d,) for d in dims], ranks, False)
    lin = env.mp.linalg
    for f in (lin.eig, lambda m, *a, **k: lin.eig_sum([m], *a, **k)):
        if what == 'norank':
            env.raises(ValueError, lambda: f(h, 1, 1), 'no start vector and no rank')
        elif what == 'rank1':
            env.raises(ValueError, lambda: f(h, 1, 1, startvec_rank=1), 'start vector of rank 1')
        elif what == 'many':
            env.raises(ValueError, lambda: f(h, 1, 1, startvec=s, eigs=lambda op, v0: (
                np.ones(2), np.ones((op.shape[0], 2)))), 'more than one eigenvalue')
        elif what == 'many1':
            env.raises(ValueError, lambda: f(h, 1, 1, startvec=s, eigs=lambda op, v0: (
                np.ones(2), np.ones(op.shape[0]))), 'more than one eigenvalue')


def configs(tier):
    big = tier != 'quick'
    small = (2, '2n', 3, '3n')
    for w in SH:
        n = len(SH[w][0])
        for vs in (1, 2, 3):
            if vs >= n:
                continue
            for sweeps in (1, 2) if big or n < 4 else (1,):
                for c in (True, False):
                    yield 'search', dict(which=w, mpas=None, vs=vs, sweeps=sweeps, cplx=c)
                    if n < 4:
                        yield 'search', dict(which=w, mpas=['o2', 's2'], vs=vs, sweeps=sweeps, cplx=c)
                    elif w != '4f':
                        yield 'search', dict(which=w, mpas=['o', 's'], vs=vs, sweeps=sweeps, cplx=c)
            if w in small or big:
                for ms in (['o'], ['s'], ['s2', 'o', 's'], ['o2', 'o', 'o'], ['s2', 's2']):
                    yield 'search', dict(which=w, mpas=ms, vs=vs, sweeps=1, cplx=True)
                for form in (1, 2):
                    yield 'search', dict(which=w, mpas=None, vs=vs, sweeps=1, cplx=True, form=form)
                    yield 'search', dict(which=w, mpas=['o', 's'], vs=vs, sweeps=1, cplx=True, form=form)
                for oc in ((False, True), (True, False)):
                    for c in (True, False):
                        for ms in (['o', 'o'], ['s', 'o'], ['o', 's']):
                            yield 'search', dict(which=w, mpas=ms, vs=vs, sweeps=1, cplx=c, opcplx=oc)
                for cf in [(l, r) for l in range(n) for r in range(1, n + 1) if l < r]:
                    yield 'search', dict(which=w, mpas=None, vs=vs, sweeps=1, cplx=True, cform=cf)
                    yield 'search', dict(which=w, mpas=['o', 's'], vs=vs, sweeps=1, cplx=True, cform=cf)
            if big:
                yield 'search', dict(which=w, mpas=None, vs=vs, sweeps=3, cplx=True)
            if n < 4:
                for summed in (False, True):
                    for rank in (2, 3):
                        yield 'random_start', dict(which=w, summed=summed, vs=vs, rank=rank, cplx=rank == 2)
    for w in ('2n', 3):
        for vs in (1, 2)[:len(SH[w][0]) - 1]:
            for ms in (None, ['o', 's']):
                for default in ('left out', 'none'):
                    yield 'search', dict(which=w, mpas=ms, vs=vs, sweeps=1, cplx=True, default=default)
    for what in ('norank', 'rank1', 'many', 'many1'):
        yield 'refuse', dict(what=what)
