"""C07: claimed canonical forms are true for every history."""
import itertools as it

import numpy as np

BOUNDS = ('1-4 sites with 1-2 legs, leg dimensions 1-3, ranks 1-3; inductive step: every true starting claim (l, r), l <= r, '
          'arbitrary tensors elsewhere, one replacement by integer (also negative) or slice index with every declared '
          'canonicalization; every operation that carries claims over from every starting claim; histories of up to 3 '
          'operations from a catalogue of 17')
OUTSIDE = 'longer chains and larger dimensions (the step is inductive in the history length); rounding; QR/SVD via contracts'

SH = {
    1: ([(2,)], []),
    2: ([(2,), (2,)], [2]),
    3: ([(2,), (3,), (2,)], [2, 2]),
    4: ([(2,), (2,), (2,), (2,)], [2, 2, 2]),
    '3m': ([(2, 1), (2,), (3,)], [2, 2]),
    '2m': ([(2, 2), (2,)], [2]),
}


def _n(w):
    return len(SH[w][0])


def _claims(n, equal=False):
    """All claims with l <= r permitted by the constructor."""
    return [(l, r) for l in range(n) for r in range(1, n + 1) if l < r or (equal and l == r)]


def _iso(canon):
    return canon


def _new(env, name, shape, canon, cplx):
    return env.tensor(name, shape, cplx, canon)


def step(env, which, cform, index, canon, cplx, via, physical=None):
    """One integer-indexed replacement from an arbitrary true state."""
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    old = list(a.lt)
    shape = old[index].shape
    if physical:
        shape = (shape[0],) + tuple(physical) + (shape[-1],)
    t = _new(env, 'new', shape, canon, cplx)
    if via == 'setitem':
        a.lt[index] = t
    elif via == 'kw':
        a.lt.update(index, t, canonicalization=canon)
    else:
        a.lt.update(index, t, canon)
    now = list(a.lt)
    n = len(s)
    for k in range(n):
        env.equal(now[k], t if k == index % n else old[k], 'site %d after the update' % k)
    env.claims(a, 'update(%r, %r)' % (index, canon))
    l, rr = a.canonical_form
    env.check(l <= rr, 'claims do not overlap')
    # the state can still be copied and scaled
    b = a.copy()
    env.claims(b, 'copy')


def sliced(env, which, cform, sl, canon, cplx, newranks):
    """Replacement of several tensors at once (ranks inside may change)."""
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx, cform)
    old = list(a.lt)
    sl = slice(*sl)
    idx = list(range(*sl.indices(n)))
    cs = [canon] * len(idx) if canon is None or isinstance(canon, str) else list(canon)
    rk = [old[idx[0]].shape[0]] + list(newranks) + [old[idx[-1]].shape[-1]]
    ts = [_new(env, 'new%d' % k, (rk[k],) + old[i].shape[1:-1] + (rk[k + 1],), c, cplx)
          for k, (i, c) in enumerate(zip(idx, cs))]
    if canon is None:
        a.lt[sl] = ts
    else:
        a.lt.update(sl, ts, canonicalization=canon)
    now = list(a.lt)
    for k in range(n):
        env.equal(now[k], ts[idx.index(k)] if k in idx else old[k], 'site %d after the update' % k)
    env.claims(a, 'update(%r, %r)' % (sl, canon))
    env.check(a.canonical_form[0] <= a.canonical_form[1], 'claims do not overlap')
    env.claims(a.copy(), 'copy')


def twosteps(env, which, cform, cplx):
    """Two replacements in a row, everything chosen freely."""
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx, cform)
    for k in range(2):
        i = env.choose('site', range(n))
        c = env.choose('canon', [None, 'left', 'right'])
        shape = a.lt[i].shape
        if c == 'left' and int(np.prod(shape[:-1])) < shape[-1]:
            return
        if c == 'right' and int(np.prod(shape[1:])) < shape[0]:
            return
        a.lt.update(i, _new(env, 'new%d' % k, shape, c, cplx), c)
    env.claims(a, 'after two updates')
    env.check(a.canonical_form[0] <= a.canonical_form[1], 'claims do not overlap')
    b = a * 2
    env.claims(b, 'scaled')


def bad(env, which):
    """Replacements that do not fit are refused and leave the array alone."""
    s, r = SH[which]
    a = env.mpa('a', s, r, True, (1, len(s)) if len(s) > 1 else None)
    sn = env.snapshot(a)
    sh = a.lt[0].shape
    env.raises(AssertionError, lambda: a.lt.update(0, env.tensor('n', (sh[0],) + sh[1:-1] + (sh[-1] + 1,))), 'right rank')
    env.unchanged(a, sn, 'refused update')
    sh = a.lt[len(s) - 1].shape
    env.raises(AssertionError, lambda: a.lt.update(len(s) - 1, env.tensor('m', (sh[0] + 1,) + sh[1:])), 'left rank')
    env.unchanged(a, sn, 'refused update')
    if len(s) >= 2:
        x = [env.tensor('p', (1, 2, 3)), env.tensor('q', (2, 2, a.lt[1].shape[-1]))]
        env.raises(AssertionError, lambda: a.lt.update(slice(0, 2), x), 'inner ranks')
        env.unchanged(a, sn, 'refused update')
        x = [env.tensor('p', (1, 2, 3)), env.tensor('q', (3, 2, a.lt[1].shape[-1] + 1))]
        env.raises(AssertionError, lambda: a.lt.update(slice(0, 2), x), 'outer ranks')
        env.unchanged(a, sn, 'refused update')


OPS = ['copy', 'T', 'transpose', 'adj', 'conj', 'mul', 'rmul', 'neg', 'div', 'imul', 'idiv', 'reshape', 'ravel', 'prune1', 'vleg', 'split',
       'pad', 'add', 'sub', 'dot', 'chain', 'reverse', 'group', 'splitsites', 'get', 'sum', 'prune', 'inject', 'localouter', 'partialdot',
       'partialtrace', 'svd', 'svdl', 'svdr', 'svdnc', 'svdncl', 'svals', 'norm', 'canon', 'diag', 'sumup', 'mulzero', 'axisiter',
       'fromarray', 'compressrel']


def derived(env, which, cform, op, cplx):
    """Claims of whatever an operation returns or leaves behind are true."""
    mp = env.mp
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx, cform)
    out = []
    if op == 'copy':
        out = [a.copy()]
    elif op == 'T':
        out = [a.T]
    elif op == 'transpose':
        out = [a.transpose()] + ([a.transpose((1, 0))] if all(len(x) == 2 for x in s) else [])
    elif op == 'adj':
        out = [a.adj()]
    elif op == 'conj':
        out = [a.conj()]
    elif op == 'mul':
        out = [a * 2, a * env.scalar('x', cplx)]
    elif op == 'mulzero':
        out = [a * 0]
    elif op == 'rmul':
        out = [env.scalar('x', True) * a, 3 * a]
    elif op == 'neg':
        out = [-a, +a]
    elif op == 'div':
        out = [a / 2]
    elif op == 'imul':
        a *= env.scalar('x', cplx)
    elif op == 'idiv':
        a /= 3
    elif op == 'reshape':
        out = [a.reshape([(1,) + tuple(x) for x in s]), a.reshape([tuple(x) + (1,) for x in s])]
    elif op == 'ravel':
        out = [a.ravel()]
    elif op == 'prune1':
        out = [a.reshape('prune')]
    elif op == 'vleg':
        for p in range(n - 1):
            b = a.vleg2leg(p)
            out += [b, b.leg2vleg(p)]
    elif op == 'split':
        for p in range(n - 1):
            out += list(a.split(p))
    elif op == 'pad':
        out = [a.pad_ranks(3, True), a.pad_ranks(2)] if n > 1 else []
    elif op == 'add':
        out = [a + a]
    elif op == 'sub':
        out = [a - a]
    elif op == 'sumup':
        out = [mp.sumup([a, a]), mp.sumup([a])]
    elif op == 'dot':
        out = [mp.dot(a.conj(), a, axes=(0, 0))]
    elif op == 'partialdot':
        b = env.mpa('b', [s[0]], [], cplx)
        out = [mp.partialdot(a, b, 0, axes=(0, 0))]
    elif op == 'chain':
        out = [mp.chain([a, a]), mp.chain([a])]
    elif op == 'localouter':
        out = [mp.localouter(a, a)]
    elif op == 'reverse':
        out = [a.reverse()]
    elif op == 'group':
        out = [a.group_sites(n), a.group_sites(1)]
        if n % 2 == 0:
            out.append(a.group_sites(2))
    elif op == 'splitsites':
        out = [a.split_sites(1)]
        if all(len(x) == 2 for x in s):
            out.append(a.split_sites(2))
    elif op == 'get':
        out = [a.get([0] * n), a.get([1] * n)] if all(x[0] > 1 for x in s) else [a.get([0] * n)]
    elif op == 'axisiter':
        out = list(a.axis_iter(0))
    elif op == 'sum':
        out = [a.sum([(0,)] + [()] * (n - 1))] if n > 1 else []
        if n > 1:
            out.append(a.sum([()] * (n - 1) + [(0,)]))
    elif op == 'prune':
        out = [mp.prune(a), mp.prune(a, singletons=True)]
    elif op == 'inject':
        out = [mp.inject(a, 0, 1, np.ones(2)), mp.inject(a, n, 1, np.ones(2))]
        if n > 1:
            out.append(mp.inject(a, 1, 1, np.ones(2)))
    elif op == 'partialtrace':
        b = mp.dot(a.reshape([tuple(x) + (1,) for x in s]), a.reshape([(1,) + tuple(x) for x in s]).conj())
        out = [b]
    elif op == 'canon':
        tgt = [(l, x) for l in [None] + list(range(n)) for x in [None] + list(range(1, n + 1))
               if (l or 0) < (x if x is not None else n)]
        l, rr = env.choose('target', tgt)
        a.canonicalize(left=l, right=rr)
    elif op == 'svd':
        a.compress('svd', rank=1)
    elif op == 'svdl':
        a.compress('svd', rank=1, direction='left')
    elif op == 'svdr':
        a.compress('svd', rank=1, direction='right')
    elif op == 'svdnc':
        a.compress('svd', rank=1, direction='right', canonicalize=False)
    elif op == 'svdncl':
        a.compress('svd', rank=1, direction='left', canonicalize=False)
    elif op == 'compressrel':
        a.compress('svd', relerr=0.5, direction='left')
    elif op == 'svals':
        k = env.choose('stop', range(n))
        for j, _ in enumerate(a.singularvals()):
            if j >= k:
                break
    elif op == 'norm':
        mp.norm(a)
    elif op == 'diag':
        if len(set(s)) == 1 and len(s[0]) == 2:
            out = list(mp.diag(a))
    elif op == 'fromarray':
        out = [mp.MPArray.from_array(a.to_array(), [len(x) for x in s])]
    else:
        raise AssertionError(op)
    for k, b in enumerate(out):
        env.claims(b, '%s #%d' % (op, k))
    env.claims(a, 'operand after ' + op)


HIST = ['canonl', 'canonr', 'canondef', 'imul', 'set0', 'setlast', 'setleft', 'setright', 'svd', 'conj', 'mul', 'T', 'vleg', 'leg', 'reshape', 'copy',
        'setslice']


def history(env, which, cplx, first, depth):
    """Sequences of operations on the current array."""
    mp = env.mp
    s, r = SH[which]
    n = len(s)
    a = env.mpa('a', s, r, cplx)
    ops = [first]
    vleg = None
    for k in range(depth):
        op = first if k == 0 else env.choose('op', HIST)
        ops.append(op)
        if op == 'canonl':
            a.canonicalize(left='afull')
        elif op == 'canonr':
            a.canonicalize(right='afull')
        elif op == 'canondef':
            a.canonicalize()
        elif op == 'imul':
            a *= 2
        elif op in ('set0', 'setlast'):
            i = 0 if op == 'set0' else n - 1
            a.lt[i] = env.tensor('h%d' % k, a.lt[i].shape, cplx)
        elif op == 'setleft':
            i = min(a.canonical_form[0], n - 1)
            sh = a.lt[i].shape
            if int(np.prod(sh[:-1])) >= sh[-1]:
                a.lt.update(i, env.tensor('h%d' % k, sh, cplx, 'left'), 'left')
        elif op == 'setright':
            i = max(a.canonical_form[1] - 1, 0)
            sh = a.lt[i].shape
            if int(np.prod(sh[1:])) >= sh[0]:
                a.lt.update(i, env.tensor('h%d' % k, sh, cplx, 'right'), 'right')
        elif op == 'setslice':
            sh0, sh1 = a.lt[0].shape, a.lt[1].shape
            a.lt[0:2] = [env.tensor('h%da' % k, sh0, cplx), env.tensor('h%db' % k, sh1, cplx)]
        elif op == 'svd':
            a.compress('svd', rank=1)
        elif op == 'conj':
            a = a.conj()
        elif op == 'mul':
            a = a * 3
        elif op == 'T':
            a = a.T
        elif op == 'vleg':
            if vleg is None:
                a, vleg = a.vleg2leg(0), 0
        elif op == 'leg':
            if vleg is not None and a.lt[0].shape[-2] == a.lt[1].shape[1] and a.ranks[0] == 1:
                a, vleg = a.leg2vleg(0), None
        elif op == 'reshape':
            a = a.reshape([tuple(x) + (1,) for x in a.shape])
        elif op == 'copy':
            a = a.copy()
        env.claims(a, 'after %s' % ', '.join(ops[1:]))
        env.check(a.canonical_form[0] <= a.canonical_form[1], 'claims do not overlap')


def configs(tier):
    big = tier != 'quick'
    for w in (1, 2, 3, 4):
        n = _n(w)
        for cf in _claims(n, True):
            for i in range(n):
                for c in (None, 'left', 'right'):
                    sh = [1] + SH[w][1] + [1]
                    ph = int(np.prod(SH[w][0][i]))
                    if c == 'left' and sh[i] * ph < sh[i + 1] or c == 'right' and sh[i + 1] * ph < sh[i]:
                        continue
                    yield 'step', dict(which=w, cform=cf, index=i, canon=c, cplx=(w != 4), via='kw' if (i + cf[0]) % 2 else 'pos')
                    if w in (2, 3):
                        yield 'step', dict(which=w, cform=cf, index=i - n, canon=c, cplx=False, via='pos')
                    if c is None:
                        yield 'step', dict(which=w, cform=cf, index=i, canon=c, cplx=False, via='setitem')
                        yield 'step', dict(which=w, cform=cf, index=i, canon=c, cplx=False, via='kw', physical=(2, 2))
    for w in (2, 3):
        for cf in _claims(_n(w), True):
            yield 'twosteps', dict(which=w, cform=cf, cplx=False), dict(cost=5)
    for cf in _claims(3, True):
        for sl, nr in [((0, 2), (2,)), ((0, 2), (1,)), ((1, 3), (2,)), ((1, 3), (1,)), ((0, 3), (2, 1)), ((None, None), (2, 2)), ((-2, None), (2,)), ((None, -1), (2,)),
                       ((1, 2), ()), ((0, 1), ())]:
            m = len(range(*slice(*sl).indices(3)))
            cans = {1: [None, ['left'], ['right'], 'left', 'right'], 2: [None, ('left', None), (None, 'right'), ('left', 'right'), 'left', 'right', [None, None]],
                    3: [None, ('left', None, 'right'), ('left', 'left', None), (None, 'right', 'right'), ('left', 'left', 'left'), 'right', 'left', (None, 'left', None)]}[m]
            for c in cans:
                rk = [([1, 2, 2, 1])[slice(*sl).indices(3)[0]]] + list(nr) + [([1, 2, 2, 1])[slice(*sl).indices(3)[1]]]
                cs = [c] * m if c is None or isinstance(c, str) else c
                dims = [2, 3, 2][slice(*sl)]
                if any(x == 'left' and rk[k] * dims[k] < rk[k + 1] or x == 'right' and rk[k + 1] * dims[k] < rk[k] for k, x in enumerate(cs)):
                    continue
                yield 'sliced', dict(which=3, cform=cf, sl=sl, canon=c, cplx=False, newranks=nr)
    for w in (1, 2, 3):
        yield 'bad', dict(which=w)
    for w in (1, 2, 3, '3m', '2m') + ((4,) if big else ()):
        n = _n(w)
        for cf in _claims(n):
            for op in OPS:
                yield 'derived', dict(which=w, cform=cf, op=op, cplx=(w != 4))
    for w, depth in [(2, 3), (3, 2)] + ([(3, 3), (2, 4)] if big else []):
        for f in HIST:
            yield 'history', dict(which=w, cplx=False, first=f, depth=depth), dict(cost=20, max_paths=4000, limit=300)
