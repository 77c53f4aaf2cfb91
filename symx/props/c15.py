"""C15: local measurements and product measurements."""
import itertools as it

import numpy as np

BOUNDS = ('built-in measurements of dimension 2-4 (thorough: 5), arbitrary elements of dimension 1-3 with 1-4 outcomes, 1-3 parts with symbolic '
          'weights, products of 1-3 sites')
OUTSIDE = 'larger dimensions; rounding (built-in elements are read as the algebraic numbers their doubles stand for); the pseudo-inverse through its contract'


def _local(env):
    return env.mp.povm.localpovm


def _quad(env, e, v):
    """<v|e|v>"""
    return env.tdot(env.tdot(env.conj(v), e, [0], [0]), v, [0], [0])


def _vectors(name, d):
    """The documented (unnormalised) vectors: X, Y for all pairs of levels."""
    if name == 'z':
        return [np.eye(d)[k] for k in range(d)], 1
    out = []
    for i in range(d):
        for j in range(i + 1, d):
            for s in (1, -1):
                v = np.zeros(d, dtype=complex)
                v[i], v[j] = 1, s * (1 if name == 'x' else 1j)
                out.append(v)
    return out, 2 * (d - 1)


def builtin(env, name, dim):
    l = _local(env)
    p = {'x': l.x_povm, 'y': l.y_povm, 'z': l.z_povm, 'pauli': l.pauli_povm}[name](dim)
    els = [env.raw(e) for e in p]
    env.check(len(p) == len(els), name + ': length')
    parts = {'pauli': ['x', 'y', 'z'] if dim == 2 else ['x', 'y']}.get(name, [name])
    exp = []
    for q in parts:
        vs, f = _vectors(q, dim)
        exp += [np.outer(v, v.conj()) / f / len(parts) for v in vs]
    env.check(len(els) == len(exp), name + ': number of outcomes')
    for e, x in zip(els, exp):
        env.equal(e, x, name + ': element')
    s = els[0]
    for e in els[1:]:
        s = s + e
    env.equal(s, np.eye(dim), name + ': elements sum to the identity')
    v = env.raw(env.tensor('v', (dim,), True))
    for e in els:
        env.equal(e, env.conj(e).T, name + ': Hermitian')
    if dim <= 3:
        q = [_quad(env, e, v) for e in els]
        for x in q:
            x = x.item() if isinstance(x, np.ndarray) else x
            env.nonneg(x.real, name + ': positive semidefinite')
    env.check(bool(p.informationally_complete) == (name == 'pauli'), name + ': informational completeness')


def parts(env, dim):
    l = _local(env)
    ps = l.pauli_parts(dim)
    exp = ['x', 'y', 'z'] if dim == 2 else ['x', 'y']
    env.check(len(ps) == len(exp), 'pauli_parts: number')
    for p, q in zip(ps, exp):
        vs, f = _vectors(q, dim)
        env.check(len(p) == len(vs), 'pauli_parts: outcomes')
        for e, v in zip(p, vs):
            env.equal(env.raw(e), np.outer(v, v.conj()) / f, 'pauli_parts: element')
    env.raises(AssertionError, lambda: l.pauli_parts(1), 'no one-dimensional Pauli measurement')


def inversion(env, dim):
    """The pseudo-inverse recovers the operator from the probabilities."""
    l = _local(env)
    p = l.pauli_povm(dim)
    rho = env.tensor('r', (dim, dim), True)
    probs = np.dot(p.probability_map, rho.ravel())
    els = [env.raw(e) for e in p]
    for k, e in enumerate(els):
        env.equal(probs[k], env.tdot(e, env.raw(rho), [0, 1], [1, 0]), 'probability_map: Born rule')
    inv = p.linear_inversion_map
    env.equal(np.dot(inv, probs), env.raw(rho).reshape((dim * dim,)), 'linear inversion')


def pmap(env, n, dim, cplx, seq):
    """Any elements: iteration, indexing, probability map."""
    l = _local(env)
    e = env.tensor('e', (n, dim, dim), cplx)
    p = l.POVM(e if not seq else [e[k] for k in range(n)])
    rho = env.tensor('r', (dim, dim), True)
    m = p.probability_map
    env.check(m.shape == (n, dim * dim), 'probability_map: shape')
    probs = np.dot(m, rho.ravel())
    for k in range(n):
        env.equal(probs[k], env.tdot(env.raw(e)[k], env.raw(rho), [0, 1], [1, 0]), 'probability_map: Born rule')
        env.equal(p[k], env.raw(e)[k], 'element by index')
    env.check(len(p) == n, 'length')
    env.check(len(list(p)) == n, 'iteration')
    env.check(not p.informationally_complete, 'not informationally complete by default')


def vectors(env, n, dim, cplx):
    l = _local(env)
    v = [env.tensor('v%d' % k, (dim,), cplx) for k in range(n)]
    p = l.POVM.from_vectors(iter(v), True)
    env.check(len(p) == n, 'from_vectors: number')
    for k in range(n):
        x = env.raw(v[k])
        env.equal(p[k], env.outer(x, env.conj(x)), 'from_vectors: projector')
    env.check(p.informationally_complete, 'from_vectors: informational completeness')


def concat(env, ns, dim, cplx):
    l = _local(env)
    es = [env.tensor('e%d' % k, (n, dim, dim), cplx) for k, n in enumerate(ns)]
    # every part sums to the identity
    for e in es:
        last = np.eye(dim)
        for k in range(e.shape[0] - 1):
            last = last - e[k]
        e[e.shape[0] - 1] = last
    w = [env.scalar('w%d' % k) for k in range(len(ns) - 1)]
    w.append(1.0 - (sum(w[1:], w[0]) if w else 0.0))
    p = l.concat([l.POVM(e) for e in es], tuple(w), info_complete=True)
    env.check(len(p) == sum(ns), 'concat: number of elements')
    k = 0
    tot = None
    for e, x in zip(es, w):
        for j in range(e.shape[0]):
            env.equal(p[k], env.raw(e)[j] * x, 'concat: element')
            tot = env.raw(p[k]) if tot is None else tot + env.raw(p[k])
            k += 1
    env.equal(tot, np.eye(dim), 'concat: elements sum to the identity')
    env.check(p.informationally_complete, 'concat: informational completeness')


def concat_bad(env):
    l = _local(env)
    p = l.POVM(env.tensor('e', (2, 2, 2)))
    env.raises(AssertionError, lambda: l.concat([p, p], (0.5, 0.25)), 'weights must sum to one')
    env.raises(AssertionError, lambda: l.concat([p, p], (1.0, 1.0)), 'weights must sum to one')


def product(env, n, dim, width, cplx, kind):
    M = env.mp.povm.MPPovm
    e = env.tensor('e', (n, dim, dim), cplx)
    arg = {'povm': lambda: _local(env).POVM(e), 'array': lambda: e,
           'list': lambda: [e[k] for k in range(n)]}[kind]()
    m = M.from_local_povm(arg, width)
    env.check(isinstance(m, M), 'from_local_povm: class')
    exp = env.raw(e)
    for _ in range(width - 1):
        exp = env.outer(exp, env.raw(e))
    env.equal(env.dense(m), exp, 'from_local_povm: products of elements')
    env.check(m.outdims == (n,) * width and m.hdims == (dim,) * width, 'from_local_povm: dimensions')
    env.claims(m, 'from_local_povm')


def eye(env, dims):
    M = env.mp.povm.MPPovm
    m = M.eye(iter(dims))
    exp = np.eye(dims[0]).reshape((1, dims[0], dims[0]))
    for d in dims[1:]:
        exp = np.multiply.outer(exp, np.eye(d).reshape((1, d, d)))
    env.equal(env.dense(m), exp, 'eye')
    env.check(m.nsoutdims == (), 'eye: no outcomes')
    rho = env.mpa('r', [(d, d) for d in dims], [2] * (len(dims) - 1), True)
    t = env.dense(rho)
    for _ in dims:
        t = np.trace(t, axis1=0, axis2=1)
    env.equal(env.dense(m.pmf(rho)).reshape(()), np.asarray(t), 'eye: probability is the trace')


def pauli_product(env, nr, dim):
    mpp = env.mp.povm
    parts = ['x', 'y', 'z'] if dim == 2 else ['x', 'y']
    loc = {}
    for q in parts:
        vs, f = _vectors(q, dim)
        loc[q] = np.array([np.outer(v, v.conj()) / f for v in vs])
    m = mpp.pauli_mpp(nr, dim)
    al = np.concatenate([loc[q] / len(parts) for q in parts])
    exp = al
    for _ in range(nr - 1):
        exp = np.multiply.outer(exp, al)
    env.equal(env.dense(m), exp, 'pauli_mpp')
    ms = mpp.pauli_mpps(nr, dim).mpps
    combos = list(it.product(parts, repeat=nr))
    env.check(len(ms) == len(combos), 'pauli_mpps: number')
    for c, x in zip(combos, ms):
        exp = loc[c[0]]
        for q in c[1:]:
            exp = np.multiply.outer(exp, loc[q])
        env.equal(env.dense(x), exp, 'pauli_mpps: %s' % ''.join(c))


def configs(tier):
    big = tier != 'quick'
    for d in (2, 3, 4) + ((5,) if big else ()):
        for n in ('x', 'y', 'z', 'pauli'):
            yield 'builtin', dict(name=n, dim=d)
        yield 'parts', dict(dim=d)
    for d in (2, 3):
        yield 'inversion', dict(dim=d)
    for n, d in ((1, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1)):
        for c in (False, True):
            for seq in (False, True):
                yield 'pmap', dict(n=n, dim=d, cplx=c, seq=seq)
            yield 'vectors', dict(n=n, dim=d, cplx=c)
            for w in (1, 2, 3):
                if w < 3 or n * d <= 4 or big:
                    for k in ('povm', 'array', 'list'):
                        yield 'product', dict(n=n, dim=d, width=w, cplx=c, kind=k)
    for ns in ((2,), (2, 3), (1, 2), (3, 1, 2)):
        for d in (1, 2, 3):
            for c in (False, True):
                yield 'concat', dict(ns=ns, dim=d, cplx=c)
    yield 'concat_bad', dict()
    for dims in ((2,), (1,), (2, 3), (3, 1, 2)):
        yield 'eye', dict(dims=dims)
    for nr, d in ((1, 2), (1, 3), (2, 2)) + (((2, 3), (3, 2)) if big else ()):
        yield 'pauli_product', dict(nr=nr, dim=d)
