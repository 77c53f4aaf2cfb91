"""C25: operands are left alone and results are independent of them."""
import numpy as np

BOUNDS = {'sites': '1..4', 'legs per site': '1..3', 'dimensions': '1..3', 'ranks': '1..2',
          'canonical form of the operands': 'none, partly and fully canonical',
          'operations': 'about 90 calls: every operation of the public modules which takes arrays and returns arrays',
          'in-place changes': 'scaling, division, canonicalization to both ends, SVD compression, replacement of one '
                              'tensor and of all tensors, writing into tensors and dense results',
          'histories': 'operation, change of the results, change of the operands; also between two steps of an iterator'}
OUTSIDE = ('longer histories; private attributes; the iterative searches (see C12, C20); files (see C24); arrays the '
           'user passes as local tensors and changes later')


# -- in-place changes -----------------------------------------------------

def _inplace(env, x, act, tag):
    """Change x (an array object of mpnum, or a dense array)."""
    if not hasattr(x, 'lt'):
        if hasattr(x, 'shape') and np.ndim(x) and act in ('imul', 'write'):
            try:
                x[(0,) * np.ndim(x)] = 7
            except (ValueError, RuntimeError):
                pass
        return x
    n = len(x)
    if act == 'imul':
        x *= 3
    elif act == 'imulc':
        x *= 2j
    elif act == 'idiv':
        x /= 2
    elif act == 'canonl':
        x.canonicalize(left=n - 1)
    elif act == 'canonr':
        x.canonicalize(right=1)
    elif act == 'svd':
        x.compress('svd', rank=1)
    elif act == 'set':
        t = x.lt[n - 1]
        x.lt[n - 1] = np.ones(t.shape)
    elif act == 'setall':
        x.lt[:] = [np.ones(t.shape) for t in x.lt]
    elif act == 'write':
        for k in range(n):
            for t in (x.lt[k], list(x.lt)[k], list(x.lt[k:k + 1])[0]):
                try:
                    t[(0,) * t.ndim] = 5
                except (ValueError, RuntimeError):
                    continue
                env.check(False, tag + ': tensors of an array cannot be written to')
                return x
    else:
        raise AssertionError(act)
    return x


ACTS = ['imul', 'imulc', 'idiv', 'canonl', 'canonr', 'svd', 'set', 'setall', 'write']


# -- operands ---------------------------------------------------------------

def _vec(env, cform=None, name='a', n=3, cplx=False):
    shapes = [(2,), (3,), (2,), (2,)][:n]
    return env.mpa(name, shapes, [2] * (n - 1), cplx, cform)


def _op(env, cform=None, name='a', n=2, cplx=False, d=2):
    return env.mpa(name, [(d, d)] * n, [2] * (n - 1), cplx, cform)


def _one(env, cform=None, name='a', n=1, cplx=False):
    return env.mpa(name, [(2, 2)], [], cplx, cform)


def _povm(env, cform=None, name='a', n=2, cplx=False):
    import mpnum.povm as mpp
    return env.mpa(name, [(2, 2, 2)] * n, [1] * (n - 1), cplx, cform, cls=mpp.MPPovm)


def _state(env, n, name='s'):
    return env.mpa(name, [(2, 2)] * n, [2] * (n - 1), True)


def _f(mod):
    import importlib
    return importlib.import_module('mpnum.' + mod)


# name -> (operands, call); the call gets env and the operands
VEC = {
    'copy': lambda e, a: [a.copy()],
    'ltcopy': lambda e, a: [e.mp.MPArray(a.lt.copy())],
    'pos': lambda e, a: [+a],
    'neg': lambda e, a: [-a],
    'T': lambda e, a: [a.T],
    'transpose': lambda e, a: [a.transpose()],
    'adj': lambda e, a: [a.adj()],
    'conj': lambda e, a: [a.conj()],
    'mul': lambda e, a: [a * 2, 3 * a, a / 4],
    'mul1': lambda e, a: [a * 1, 1.0 * a, a / 1],
    'mulc': lambda e, a: [a * 2j],
    'add': lambda e, a: [a + a, a - a],
    'sumup': lambda e, a: [e.mp.sumup([a, a]), e.mp.sumup([a]), e.mp.sumup([a], weights=[1])],
    'reshape': lambda e, a: [a.reshape([tuple(s) + (1,) for s in a.shape]), a.reshape(list(a.shape))],
    'ravel': lambda e, a: [a.ravel()],
    'reshape_prune': lambda e, a: [a.reshape('prune')],
    'reverse': lambda e, a: [a.reverse()],
    'group': lambda e, a: [a.group_sites(1), a.group_sites(len(a))],
    'splitsites': lambda e, a: [a.split_sites(1)],
    'get': lambda e, a: [a.get([0] * len(a))],
    'axisiter': lambda e, a: list(a.axis_iter())[:3],
    'sum': lambda e, a: [a.sum([(0,)] + [()] * (len(a) - 1)), a.sum([()] * len(a))],
    'pad': lambda e, a: [a.pad_ranks(3, True), a.pad_ranks(2), a.pad_ranks(1)],
    'compression': lambda e, a: [a.compression('svd', rank=1)[0], a.compression('svd', rank=9)[0]],
    'compression_l': lambda e, a: [a.compression('svd', rank=1, direction='left')[0]],
    'compression_nc': lambda e, a: [a.compression('svd', rank=2, direction='right', canonicalize=False)[0]],
    'prune': lambda e, a: [e.mp.prune(a), e.mp.prune(a, singletons=True)],
    'chain': lambda e, a: [e.mp.chain([a, a]), e.mp.chain([a])],
    'localouter': lambda e, a: [e.mp.localouter(a, a)],
    'inject': lambda e, a: [e.mp.inject(a, 0, 1, np.ones(2)), e.mp.inject(a, len(a), 1, np.ones(2))],
    'inject_none': lambda e, a: [e.mp.inject(a, [0], [0], [np.ones(2)])],
    'dot': lambda e, a: [e.mp.dot(a, a, axes=(0, 0))],
    'dense': lambda e, a: [a.to_array(), a.to_array_global() if len(set(map(len, a.shape))) == 1 else a.to_array()],
    'from_array': lambda e, a: [e.mp.MPArray.from_array(a.to_array(), [len(s) for s in a.shape])],
    'inner': lambda e, a: [e.mp.inner(a, a)],
    'normdist': lambda e, a: [e.mp.normdist(a, a + a)],
    'mps_to_pmps': lambda e, a: [_f('mpsmpo').mps_to_pmps(a)],
    'mps_to_mpo': lambda e, a: [_f('mpsmpo').mps_to_mpo(a)],
    'red_mps': lambda e, a: list(_f('mpsmpo').reductions_mps_as_pmps(a, width=1)),
    'red_mps_mpo': lambda e, a: list(_f('mpsmpo').reductions_mps_as_mpo(a, width=1)),
    'red_mps_all': lambda e, a: list(_f('mpsmpo').reductions_mps_as_pmps(a, width=len(a))),
    'local_sum': lambda e, a: ([e.mp.local_sum([a, a], embed_tensor=np.ones(2))] if len(a) == 1 else []) +
    [e.mp.local_sum([a], embed_tensor=np.ones(2))],
    'local_sum_w': lambda e, a: [e.mp.local_sum([a], embed_tensor=np.ones(2), length=len(a),
                                                slices=[slice(0, len(a))])],
    'embed_slice': lambda e, a: [e.mp.mparray.embed_slice(len(a), slice(0, len(a)), a, np.ones(2)),
                                 e.mp.mparray.embed_slice(len(a) + 1, slice(0, len(a)), a, np.ones(2)),
                                 e.mp.mparray.embed_slice(len(a) + 1, slice(1, len(a) + 1), a, np.ones(2))],
    'diag1': lambda e, a: list(e.mp.diag(a)) if len(set(a.shape)) == 1 else [a + a],
    'dump': lambda e, a: [a.copy()],
}
LONG = {
    'vleg': lambda e, a: [a.vleg2leg(0), a.vleg2leg(len(a) - 2)],
    'legvleg': lambda e, a: [a.vleg2leg(0).leg2vleg(0)],
    'split': lambda e, a: list(a.split(0)),
    'sumlast': lambda e, a: [a.sum([()] * (len(a) - 1) + [(0,)])],
    'sumprune': lambda e, a: [e.mp.prune(a.sum([()] * (len(a) - 1) + [(0,)]))],
    'injectmid': lambda e, a: [e.mp.inject(a, 1, 1, np.ones(2))],
    'partialdot': lambda e, a: [e.mp.partialdot(a, e.mpa('b', [(a.shape[1][0], 2)], [], False), 1, axes=(0, 0))],
}
OPS2 = {
    'partialtrace': lambda e, a: [e.mp.partialtrace(a), e.mp.partialtrace(a, [None] * len(a)),
                                  e.mp.partialtrace(a, [(0, 1)] + [None] * (len(a) - 1))],
    'trace': lambda e, a: [e.mp.trace(a)],
    'dotop': lambda e, a: [e.mp.dot(a, a)],
    'sandwich': lambda e, a: [e.mp.sandwich(a, e.mpa('v', [(2,)] * len(a), [2] * (len(a) - 1), True))],
    'Top': lambda e, a: [a.T, a.transpose((1, 0)), a.transpose((0, 1))],
    'adjop': lambda e, a: [a.adj()],
    'red_mpo': lambda e, a: list(_f('mpsmpo').reductions_mpo(a, width=1)),
    'red_mpo_all': lambda e, a: list(_f('mpsmpo').reductions_mpo(a, width=len(a))),
    'pmps_to_mpo': lambda e, a: [_f('mpsmpo').pmps_to_mpo(a)],
    'pmps_dm': lambda e, a: [_f('mpsmpo').pmps_dm_to_array(a)],
    'splitsites2': lambda e, a: [a.split_sites(2)],
    'getop': lambda e, a: [a.get([1] * len(a))],
    'iterop': lambda e, a: list(a.axis_iter(1))[:2],
    'diag': lambda e, a: list(e.mp.diag(a)),
    'globaldense': lambda e, a: [a.to_array_global(), a.to_array()],
}
# these canonicalize a state as they go (represented values still stay)
CANON = {
    'red_pmps': lambda e, a: list(_f('mpsmpo').reductions_pmps(a, width=1)),
    'red_pmps_all': lambda e, a: list(_f('mpsmpo').reductions_pmps(a, width=len(a))),
    'pmps_reduction': lambda e, a: [_f('mpsmpo').pmps_reduction(a, [0]),
                                    _f('mpsmpo').pmps_reduction(a, range(len(a)))],
    'pmps_reduction_gap': lambda e, a: [_f('mpsmpo').pmps_reduction(a, [0, len(a) - 1])],
}
PMPS1 = {
    'pmps_to_mps': lambda e, a: [_f('mpsmpo').pmps_to_mps(a)],
}
POVM = {
    'embed0': lambda e, a: [a.embed(len(a), 0, 2)],
    'embed': lambda e, a: [a.embed(len(a) + 1, 0, 2), a.embed(len(a) + 1, 1, 2), a.embed(len(a) + 2, 1, 2)],
    'block': lambda e, a: list(a.block(len(a) + 1).mpps) + list(a.block(len(a)).mpps),
    'repeat': lambda e, a: [a.repeat(len(a)), a.repeat(2 * len(a)), a.repeat(2 * len(a) + 1)],
    'elements': lambda e, a: list(a.elements)[:3],
    'probability_map': lambda e, a: [a.probability_map],
    'list': lambda e, a: list(_f('povm').MPPovmList([a, a]).repeat(len(a)).mpps),
    'listblock': lambda e, a: list(_f('povm').MPPovmList([a]).block(len(a) + 1).mpps),
    'copyp': lambda e, a: [a.copy(), +a, a * 1],
    'expect_mpdo': lambda e, a: [x for x in a.expectations(_state(e, len(a) + 1), 'mpdo')],
    'pmf': lambda e, a: [a.pmf(_state(e, len(a)), 'mpdo')],
}


def _results(rs):
    return [r for r in rs if hasattr(r, 'lt')], [r for r in rs if not hasattr(r, 'lt')]


def _operand(env, kind, n, cform, cplx):
    if kind == 'vec':
        return _vec(env, cform, n=n, cplx=cplx)
    if kind == 'op':
        return _op(env, cform, n=n, cplx=cplx)
    if kind == 'pmps1':
        return env.mpa('a', [(2, 1)] * n, [2] * (n - 1), cplx, cform)
    return _povm(env, cform, n=n, cplx=cplx)


TABLE = {}
for _t in (VEC, LONG, OPS2, CANON, PMPS1, POVM):
    TABLE.update(_t)


def independent(env, op, kind, n, cform, cplx, act):
    """Operation, then in-place changes of the results and of the operand."""
    a = _operand(env, kind, n, cform, cplx)
    soft = op in CANON
    snap = env.snapshot(a)
    want = env.dense(a).copy()
    rs = TABLE[op](env, a)
    if soft:
        env.equal(env.dense(a), want, 'operand represents the same array')
        env.claims(a, 'operand')
        snap = env.snapshot(a)
    else:
        env.unchanged(a, snap, 'operand')
        env.check(type(a) is snap[2], 'class of the operand')
    mps, others = _results(rs)
    keep = [env.snapshot(r) for r in mps]
    dk = [env.raw(r).copy() for r in others if hasattr(r, 'shape') and np.ndim(r)]
    # in-place changes of one result after the other
    for k, r in enumerate(mps):
        r = _inplace(env, r, act, 'result %d' % k)
        env.unchanged(a, snap, 'operand after a change of result %d' % k)
        for j in range(k + 1, len(mps)):
            env.unchanged(mps[j], keep[j], 'result %d after a change of result %d' % (j, k))
    for r in others:
        _inplace(env, r, act, 'dense result')
        env.unchanged(a, snap, 'operand after a change of a dense result')
    # once more, now the operand is changed
    b = _operand(env, kind, n, cform, cplx)
    rs = TABLE[op](env, b)
    mps, others = _results(rs)
    keep = [env.snapshot(r) for r in mps]
    dk = [(r, env.raw(r).copy()) for r in others if hasattr(r, 'shape') and np.ndim(r)]
    b = _inplace(env, b, act, 'operand')
    for k, r in enumerate(mps):
        env.unchanged(r, keep[k], 'result %d after a change of the operand' % k)
    for r, v in dk:
        env.equal(r, v, 'dense result after a change of the operand')


def inplace(env, act, n, cform, cplx):
    """An in-place operation changes its target only: not the tensors it was
    made from, not another array with the same tensors."""
    mp = env.mp
    src = env.lts('a', [(2,), (3,), (2,), (2,)][:n], [2] * (n - 1), cplx, cform)
    before = [env.raw(t).copy() for t in src]
    LT = mp.mpstruct.LocalTensors
    lst = list(src)
    a = mp.MPArray(LT(lst, cform=cform or (0, n)))
    b = mp.MPArray(LT(lst, cform=cform or (0, n)))
    c = mp.MPArray(list(src))
    d = mp.MPArray(t for t in src)
    e = a.copy()
    sb, sc, sd, se = [env.snapshot(x) for x in (b, c, d, e)]
    a = _inplace(env, a, act, 'array')
    for k in range(n):
        env.equal(src[k], before[k], 'tensor %d the array was made from' % k)
    env.check(len(lst) == n and all(x is y for x, y in zip(lst, src)), 'list of tensors')
    for x, s, w in ((b, sb, 'second array'), (c, sc, 'third array'), (d, sd, 'fourth array'), (e, se, 'copy')):
        env.unchanged(x, s, w)


def deepcopy(env, n, cform, cplx):
    """A copy keeps its values when the tensors the array was made from are
    overwritten."""
    mp = env.mp
    src = env.lts('a', [(2,), (3,), (2,), (2,)][:n], [2] * (n - 1), cplx, cform)
    a = mp.MPArray(mp.mpstruct.LocalTensors(src, cform=cform or (0, n)))
    b, c = a.copy(), a.lt.copy()
    sb = env.snapshot(b)
    for t in src:
        t[...] = 0
    env.unchanged(b, sb, 'copy')
    env.unchanged(mp.MPArray(c), sb, 'copy of the local tensors')


def _density(env, r, which):
    d = env.dense(r)
    if which in ('mpo', 'mpo2', 'mps_mpo'):
        return d
    return _pure(env, d, len(r))


def _pure(env, d, m):
    """Dense state with legs (system, ancilla) per site -> operator in local form."""
    anc = list(range(1, 2 * m, 2))
    t = env.tdot(d, env.conj(d), anc, anc)
    return t.transpose([x for k in range(m) for x in (k, m + k)])


def _reduced(env, want, which, n, win):
    if which in ('mps', 'mps_mpo'):
        want = _pure(env, want.reshape([x for s in want.shape for x in (s, 1)]), n)
    elif which == 'pmps':
        want = _pure(env, want, n)
    lo, hi = win
    for k in reversed(range(n)):
        if not lo <= k < hi:
            d = want.shape[2 * k]
            acc = 0
            for i in range(d):
                acc = acc + want[(slice(None),) * (2 * k) + (i, i)]
            want = acc
    return want


def stepping(env, which, act, n, cplx):
    """Results of an iterator are changed between its steps."""
    m = _f('mpsmpo')
    if which == 'pmps':
        make = lambda a: m.reductions_pmps(a, width=1)
    elif which == 'mps':
        make = lambda a: m.reductions_mps_as_pmps(a, width=1)
    elif which == 'mps_mpo':
        make = lambda a: m.reductions_mps_as_mpo(a, width=1)
    elif which == 'mpo':
        make = lambda a: m.reductions_mpo(a, width=1)
    elif which == 'mpo2':
        make = lambda a: m.reductions_mpo(a, startsites=[0, 0, 1], stopsites=[1, 2, 2])
    elif which == 'axes':
        make = lambda a: a.axis_iter()
    kind = 'vec' if which in ('mps', 'mps_mpo') else 'op'
    a = _operand(env, kind, n, None, cplx)
    want = env.dense(a).copy()
    got = []
    for k, r in enumerate(make(a)):
        if which == 'axes' and k > 3:
            break
        win = [(0, 1), (0, 2), (1, 2)][k] if which == 'mpo2' else (k, k + 1)
        if which == 'axes':
            idx = tuple(int(x) for x in np.unravel_index(k, (2,) * n))
            ref = want[tuple(x for i in idx for x in (i, slice(None)))]
            have = env.dense(r)
        else:
            ref, have = _reduced(env, want, which, n, win), _density(env, r, which)
        env.equal(have, ref, 'result %d' % k)
        _inplace(env, r, act, 'result %d' % k)
        got.append((r, env.snapshot(r)))
    env.equal(env.dense(a), want, 'operand')
    for k, (r, s) in enumerate(got):
        env.unchanged(r, s, 'result %d after later steps' % k)


def augmented(env, op, cform, cplx):
    """b = a; b += c makes a new array, b *= x changes a itself."""
    a = _vec(env, cform, cplx=cplx)
    c = _vec(env, None, name='c', cplx=cplx)
    sa, sc = env.snapshot(a), env.snapshot(c)
    want = env.dense(a).copy()
    b = a
    if op == 'iadd':
        b += c
        env.equal(env.dense(b), want + env.dense(c), 'sum')
        env.unchanged(a, sa, 'operand')
    elif op == 'isub':
        b -= c
        env.equal(env.dense(b), want - env.dense(c), 'difference')
        env.unchanged(a, sa, 'operand')
    elif op == 'imul':
        b *= 3
        env.check(b is a, 'in place')
        env.equal(env.dense(a), 3 * want, 'scaled')
        env.claims(a, 'scaled')
    elif op == 'idiv':
        b /= 2
        env.check(b is a, 'in place')
        env.equal(env.dense(a), want / 2, 'scaled')
    elif op == 'refused':
        def bad():
            x = a
            x *= np.ones(2)
        env.raises(NotImplementedError, bad, 'array factor')
        env.unchanged(a, sa, 'target of a refused operation')

        def bad2():
            x = a
            x /= c
        env.raises(NotImplementedError, bad2, 'array divisor')
        env.unchanged(a, sa, 'target of a refused operation')
    env.unchanged(c, sc, 'second operand')


def factories(env, which, act):
    """Arrays made by the factories own their tensors."""
    mp = env.mp
    if which == 'diagonal':
        e = env.tensor('e', (2,))
        before = env.raw(e).copy()
        a, b = mp.diagonal_mpa(e, 4), mp.diagonal_mpa(e, 4)
    elif which == 'diagonal1':
        e = env.tensor('e', (2,))
        before = env.raw(e).copy()
        a, b = mp.diagonal_mpa(e, 1), mp.diagonal_mpa(e, 1)
    elif which == 'kron':
        e = env.tensor('e', (2, 2))
        before = env.raw(e).copy()
        fs = [e, e, e]
        a, b = mp.MPArray.from_kron(fs), mp.MPArray.from_kron(fs)
        env.check(len(fs) == 3, 'list of factors')
    elif which == 'array':
        e = env.tensor('e', (2, 2))
        before = env.raw(e).copy()
        a, b = mp.MPArray.from_array(e, 1), mp.MPArray.from_array(e, 1)
    elif which == 'array1':
        e = env.tensor('e', (2, 2))
        before = env.raw(e).copy()
        a, b = mp.MPArray.from_array(e, 2), mp.MPArray.from_array_global(e, 2)
    elif which == 'localpovm':
        e = env.tensor('e', (2, 2, 2))
        before = env.raw(e).copy()
        mpp = _f('povm')
        a, b = mpp.MPPovm.from_local_povm(e, 3), mpp.MPPovm.from_local_povm(e, 3)
    sb = env.snapshot(b)
    own = env.snapshot(a)[0]
    if act == 'lastonly':
        # replacing one tensor does not change the other sites
        a.lt[len(a) - 1] = np.zeros(a.lt[len(a) - 1].shape)
        for k in range(len(a) - 1):
            env.equal(a.lt[k], own[k], 'site %d' % k)
    else:
        a = _inplace(env, a, act, which)
    env.unchanged(b, sb, 'second array')
    env.equal(e, before, 'argument of the factory')


def two(env, op, cf1, cf2, act):
    """Operations on two different operands."""
    mp = env.mp
    a = _op(env, cf1, 'a', 2, False)
    b = _op(env, cf2, 'b', 2, True)
    sa, sb = env.snapshot(a), env.snapshot(b)
    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'dot': lambda: mp.dot(a, b),
         'chain': lambda: mp.chain([a, b]), 'outer': lambda: mp.localouter(a, b),
         'sumup': lambda: mp.sumup([a, b]), 'sumupw': lambda: mp.sumup([a, b], weights=[1, 2]),
         'partialdot': lambda: mp.partialdot(mp.chain([a, a]), b, 1),
         'inner': lambda: mp.inner(a, b), 'normdist': lambda: mp.normdist(a, b),
         'local_sum': lambda: mp.local_sum([a, b]),
         'special': lambda: _f('special').inner_prod_mps(mp.MPArray.from_kron([np.ones(4)] * 2), a.ravel()),
         'inject': lambda: mp.inject(a, 1, None, [b.lt[0][0, ..., 0] * 1]),
         }[op]()
    env.unchanged(a, sa, 'first operand')
    env.unchanged(b, sb, 'second operand')
    if hasattr(r, 'lt'):
        sr = env.snapshot(r)
        a2 = _inplace(env, a, act, 'first operand')
        env.unchanged(r, sr, 'result after a change of the first operand')
        env.unchanged(b, sb, 'second operand')
        sa = env.snapshot(a2)
        b2 = _inplace(env, b, act, 'second operand')
        env.unchanged(r, sr, 'result after a change of the second operand')
        sb = env.snapshot(b2)
        _inplace(env, r, act, 'result')
        env.unchanged(a, sa, 'first operand')
        env.unchanged(b, sb, 'second operand')


def configs(tier):
    big = tier != 'quick'

    def cfs(n):
        return [None] + ([(n - 1, n), (0, 1)] if n > 1 else []) + ([(1, 2)] if n > 2 else [])
    for n in (1, 3) + ((2, 4) if big else ()):
        table = dict(VEC)
        if n > 1:
            table.update(LONG)
        for op in sorted(table):
            if op == 'dump' or (n == 1 and op in ('red_mps_all',)):
                continue
            for k, cf in enumerate(cfs(n)):
                for j, act in enumerate(ACTS):
                    if not big and k and (j + k) % 2:
                        continue
                    yield 'independent', dict(op=op, kind='vec', n=n, cform=cf, cplx=(j + k) % 3 == 0, act=act)
    for n in (1, 2, 3):
        for tab, kind in ((OPS2, 'op'), (CANON, 'op'), (PMPS1, 'pmps1'), (POVM, 'povm')):
            for op in sorted(tab):
                if n == 3 and not (big or op in ('partialtrace', 'red_mpo', 'diag', 'pmps_reduction_gap', 'repeat')):
                    continue
                for k, cf in enumerate(cfs(n)):
                    if kind == 'povm' and cf is not None:
                        continue
                    for j, act in enumerate(ACTS):
                        if not big and k and (j + k) % 2:
                            continue
                        yield 'independent', dict(op=op, kind=kind, n=n, cform=cf, cplx=(j + k) % 3 == 0, act=act)
    for act in ACTS:
        for n in (1, 2, 3):
            for cf in cfs(n):
                yield 'inplace', dict(act=act, n=n, cform=cf, cplx=n == 2)
        for which in ('pmps', 'mps', 'mps_mpo', 'mpo', 'mpo2', 'axes'):
            for n in (2, 3):
                if n == 3 and (which in ('pmps', 'mps', 'mps_mpo') or which == 'mpo2' and not big):
                    continue
                yield 'stepping', dict(which=which, act=act, n=n, cplx=act == 'imul')
        for which in ('diagonal', 'diagonal1', 'kron', 'array', 'array1', 'localpovm'):
            yield 'factories', dict(which=which, act=act)
        for op in ('add', 'sub', 'dot', 'chain', 'outer', 'sumup', 'sumupw', 'partialdot', 'inner', 'normdist',
                   'local_sum', 'special', 'inject'):
            yield 'two', dict(op=op, cf1=None, cf2=None, act=act)
            yield 'two', dict(op=op, cf1=(1, 2), cf2=(0, 1), act=act)
    for which in ('diagonal', 'kron', 'array', 'localpovm'):
        yield 'factories', dict(which=which, act='lastonly')
    for n in (1, 2, 3, 4):
        for cf in cfs(n):
            yield 'deepcopy', dict(n=n, cform=cf, cplx=n % 2 == 0)
    for op in ('iadd', 'isub', 'imul', 'idiv', 'refused'):
        for cf in (None, (2, 3), (0, 1), (1, 2)):
            for cplx in (False, True):
                yield 'augmented', dict(op=op, cform=cf, cplx=cplx)
