"""C16: sampling."""
import numpy as np

from symx.env import Sampler
from symx.props.c14 import Projection, _born, _state

BOUNDS = ('1-5 sites, 1-5 outcomes and dimensions 1-2 per site, ranks 1-2, 1-2 samples, group sizes 1 to more than the chain, both methods, every '
          'sequence of outcomes of the generator; real measurements and states without restriction except a normalised total probability, '
          'complex pure states with rank-one measurements')
OUTSIDE = ('longer chains; rounding; the projection onto probabilities is decided in C27 and replaced here by its argument; the generator draws '
           'outcome k with the probability it is given; measurements without any outcome')

# outcomes, dimensions, ranks of the measurement, ranks of the state
SH = {
    1: ([2], [2], [], []),
    '1t': ([3], [2], [], []),
    '2q': ([2, 2], [2, 1], [1], [1]),
    2: ([2, 2], [1, 1], [2], [1]),
    '2n': ([3, 2], [1, 1], [2], [1]),
    '2s': ([1, 2], [1, 2], [1], [1]),
    '2t': ([2, 1], [1, 1], [2], [1]),
    3: ([2, 2, 2], [1, 1, 1], [1, 1], [1, 1]),
    '3n': ([2, 1, 3], [1, 1, 1], [1, 2], [1, 1]),
    '3m': ([2, 3, 2], [1, 1, 1], [2, 1], [1, 1]),
    5: ([2, 1, 2, 2, 2], [1, 1, 1, 1, 1], [1, 2, 1, 1], [1, 1, 1, 1]),
    '2w': ([5, 4], [1, 1], [2], [1]),
    '4n': ([2, 2, 1, 2], [1, 1, 1, 1], [1, 2, 1], [1, 1, 1]),
}


class Real(Projection):
    """The projection of a real distribution is its argument."""

    def __call__(self, values, *a, **k):
        values = Projection.__call__(self, values, *a, **k)
        if values.dtype.kind == 'c':
            self.env.equal(values.imag, np.zeros(values.shape), 'probabilities are real')
            values = values.real
        return values


def _inputs(env, which, mode, cplx, tag=''):
    """Measurement, state and the joint distribution (normalised)."""
    out, h, pr, r = SH[which]
    n = len(h)
    M = env.mp.povm.MPPovm
    if cplx:
        lts = []
        for k in range(n):
            v = env.tensor('v%s%d' % (tag, k), (out[k], h[k]), True)
            e = [np.multiply.outer(v[j], v[j].conj()) for j in range(out[k])]
            lts.append(env.mp.mparray.np.array(e).reshape((1, out[k], h[k], h[k], 1)))
    else:
        lts = env.lts('e' + tag, [(o, d, d) for o, d in zip(out, h)], pr)
    if set(h) == {1}:
        # the state is trivial: the measurement is an arbitrary distribution
        st = env.mp.MPArray([np.ones((1, 1) + ((1,) if mode != 'mps' else ()) + (1,))] * n)
        rho = np.ones((1, 1) * n)
    else:
        st, rho = _state(env, mode, 's', h, [1, 2, 1, 1][:n], r, cplx)
    p = _born(env, env.contract(lts)[0, ..., 0], rho, n)
    tot = p.sum()
    if env.symbolic:
        tot = tot.real
        env.suppose(tot > 0)
    else:
        tot = float(np.real(tot))
        if abs(tot) < 1e-3:
            env.assume(False)
    lts[0] = lts[0] / tot
    e = M(lts)
    ns = tuple(x for x in out if x > 1)
    return e, st, p.reshape(ns) * (1 / tot), ns


def _product(env, rng, joint, got, ns, what):
    got = np.asarray(got)
    env.check(got.shape[1:] == (len(ns),), what + ': shape')
    env.check(bool((got < np.array(ns)).all()), what + ': outcomes in range')
    exp = None
    for row in got:
        x = joint[tuple(int(k) for k in row)]
        exp = x if exp is None else exp * x
    prob = None
    for p, k in rng.draws:
        prob = p[k] if prob is None else prob * p[k]
    if prob is None:
        return
    env.equal(prob, exp, what + ': probability of the drawn samples')
    for p, k in rng.draws:
        env.equal(sum(p[1:], p[0]), 1.0, what + ': conditional probabilities sum to one')


def sample(env, which, mode, method, group, ns, cplx, pack=False, eps=None):
    e, st, joint, nsout = _inputs(env, which, mode, cplx)
    proj = Real(env) if eps is None else Real(env, eps)
    rng = Sampler(env)
    kw = {} if group is None else {'n_group': group}
    if method is not None:
        kw['method'] = method
    if mode == 'pmps':
        kw['mode'] = mode
    if pack:
        kw['pack'] = {'i8': np.int64, 'u1': np.uint8}.get(pack, True)
    if eps is not None:
        kw['eps'] = eps
    got = e.sample(rng, st, ns, **kw)
    what = 'sample(%s, %r)' % (method, group)
    env.check(len(got) == ns, what + ': number of samples')
    if pack:
        env.check(got.shape == (ns,), what + ': packed')
        if pack in ('i8', 'u1'):
            env.check(got.dtype == {'i8': np.int64, 'u1': np.uint8}[pack], what + ': type of packed samples')
        got = [np.unravel_index(int(x), nsout) for x in got]
    else:
        env.check(got.dtype == np.uint8, what + ': type of samples')
    _product(env, rng, joint, got, nsout, what)


def listed(env, which, mode, method, group, eps=None):
    """Every measurement of a list is sampled on its own."""
    e, st, joint, nsout = _inputs(env, which, mode, False)
    f, st, join2, nsout = _inputs(env, which, mode, False, 'f')
    proj = Real(env) if eps is None else Real(env, eps)
    rng = Sampler(env)
    l = env.mp.povm.MPPovmList([e, f])
    kw = {} if eps is None else {'eps': eps}
    it = l.sample(rng, st, 1, method, n_group=group, **kw)
    for j in (joint, join2):
        rng.draws = []
        got = next(it)
        _product(env, rng, j, got, nsout, 'MPPovmList.sample')
    env.check(next(it, None) is None, 'MPPovmList.sample: number')


def bad(env):
    e, st, joint, nsout = _inputs(env, 2, 'mpdo', False)
    env.raises(ValueError, lambda: e.sample(Sampler(env), st, 1, method='other'), 'unknown method')


def configs(tier):
    big = tier != 'quick'
    for mode in ('mpdo', 'mps', 'pmps'):
        for g in (2, 3, 4, 6):
            yield 'sample', dict(which=5, mode=mode, method='cond', group=g, ns=1, cplx=False)
        yield 'sample', dict(which=5, mode=mode, method='direct', group=None, ns=1, cplx=False)
    for w in sorted(set(SH) - {5}, key=str):
        n = len([x for x in SH[w][0] if x > 1])
        for mode in ('mpdo', 'mps', 'pmps'):
            for g in range(1, n + 2):
                yield 'sample', dict(which=w, mode=mode, method='cond', group=g, ns=1, cplx=False)
            yield 'sample', dict(which=w, mode=mode, method=None, group=None, ns=1, cplx=False)
            yield 'sample', dict(which=w, mode=mode, method='direct', group=None, ns=1, cplx=False)
        if len(SH[w][0]) < 3 or big:
            for g in ((1, 2) if big else (1,) if w == '1' else ()):
                if (w, g) != ('2q', 1):
                    yield 'sample', dict(which=w, mode='mps', method='cond', group=g, ns=1, cplx=True), dict(timeout=20)
            yield 'sample', dict(which=w, mode='mps', method='direct', group=1, ns=1, cplx=True), dict(timeout=20)
            for m in ('cond', 'direct') if w not in ('2q', '2w') or big and w != '2w' else ():
                yield 'sample', dict(which=w, mode='mpdo', method=m, group=1, ns=2, cplx=False)
                for p in ('i8', 'u1', True):
                    yield 'sample', dict(which=w, mode='mpdo', method=m, group=1, ns=1, cplx=False, pack=p)
    for m in ('cond', 'direct'):
        for g in (1, 2):
            yield 'listed', dict(which='2s', mode='mps', method=m, group=g)
            yield 'listed', dict(which='2n', mode='mpdo', method=m, group=g)
            yield 'listed', dict(which='2t', mode='mpdo', method=m, group=g, eps=0.125)
            for w in (1, 2, '2n', 3, '3n'):
                # a threshold that probabilities fall below
                yield 'sample', dict(which=w, mode='mpdo', method=m, group=g, ns=1, cplx=False, eps=0.125)
                yield 'sample', dict(which=w, mode='pmps', method=m, group=g, ns=1, cplx=False, eps=0.5)
    yield 'bad', dict()
