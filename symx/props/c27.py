"""C27: projection onto probabilities."""
import numpy as np

BOUNDS = 'arrays with 1-5 entries (also two- and three-dimensional and single numbers), real and complex, symbolic tolerances in (0, 1) and truncation threshold >= 0'
OUTSIDE = 'more entries; rounding; infinities and not-a-number'


def _tol(env, which):
    """(imag_eps, real_eps, real_trunc, keyword arguments)"""
    if which == 'default':
        return 1e-10, 1e-10, 0.0, {}
    i, r, t = env.positive('ie'), env.positive('re'), env.positive('tr')
    env.assume(i < 1)
    env.assume(r < 1)
    if which == 'eps':
        return i, r, 0.0, dict(imag_eps=i, real_eps=r)
    return i, r, t, dict(imag_eps=i, real_eps=r, real_trunc=t)


def _values(env, shape, kind):
    """kind: 'any' values, or 'pmf': positive ones which sum to one."""
    if kind == 'any':
        return env.tensor('v', shape)
    n = int(np.prod(shape))
    p = [env.positive('p%d' % k) for k in range(n)]
    s = sum(p[1:], p[0])
    v = env.tensor('v', shape)
    for k, i in enumerate(np.ndindex(*shape)):
        v[i] = p[k] / s
    return v


def _split(env, shape, kind, cplx, small):
    v = _values(env, shape, kind)
    if not cplx:
        return v, v.copy(), None
    w = env.tensor('w', shape)
    if small:
        w = w * 0
    return v + 1j * w, v, w


def _call(fn, *a, **k):
    try:
        return fn(*a, **k), None
    except AssertionError as e:
        return None, e


def nonneg(env, shape, tol, cplx, kind='any', small=False):
    ie, re, tr, kw = _tol(env, tol)
    v, real, imag = _split(env, shape, kind, cplx, small)
    old = v.copy()
    got, err = _call(env.mp.utils.pmf.project_nonneg, v, **kw)
    ok = env.both(*[real[i] >= -re for i in np.ndindex(*shape)])
    if imag is not None:
        ok = env.both(ok, *[abs(imag[i]) <= ie for i in np.ndindex(*shape)])
    if err is not None:
        env.check(~ok if env.symbolic else not ok, 'values within the tolerances are accepted')
        return
    env.check(ok, 'values beyond the tolerances are refused')
    env.check(got.dtype.kind == 'f', 'real result')
    for i in np.ndindex(*shape):
        x = env.ite(real[i] <= tr, 0.0, real[i])
        env.equal(got[i], x, 'entry')
        env.nonneg(got[i], 'non-negative')
    if cplx:
        env.equal(v, old, 'complex input is not modified')
    else:
        env.equal(v, got, 'real input is modified in place')


def pmf(env, shape, tol, cplx, kind='any', small=False):
    ie, re, tr, kw = _tol(env, tol)
    v, real, imag = _split(env, shape, kind, cplx, small)
    old = v.copy()
    got, err = _call(env.mp.utils.pmf.project_pmf, v, **kw)
    idx = list(np.ndindex(*shape))
    ok = env.both(*[real[i] >= -re for i in idx])
    if imag is not None:
        ok = env.both(ok, *[abs(imag[i]) <= ie for i in idx])
    t = [env.ite(real[i] <= tr, 0.0, real[i]) for i in idx]
    s = sum(t[1:], t[0])
    ok = env.both(ok, s - 1.0 <= re, 1.0 - s <= re)
    if kind == 'pmf' and tol != 'all' and (not cplx or small):
        env.check(err is None, 'a probability vector is accepted')
    if err is not None:
        env.check(~ok if env.symbolic else not ok, 'values within the tolerances are accepted')
        return
    env.check(ok, 'values beyond the tolerances are refused')
    env.check(got.dtype.kind == 'f', 'real result')
    for i, x in zip(idx, t):
        env.equal(got[i] * s, x, 'entry times sum')
        env.nonneg(got[i], 'non-negative')
        if kind == 'pmf' and tol != 'all':
            env.equal(got[i], real[i], 'a probability vector is unchanged')
    g = [got[i] for i in idx]
    env.equal(sum(g[1:], g[0]), 1.0, 'sum of the result')
    if cplx:
        env.equal(v, old, 'complex input is not modified')
    else:
        env.equal(v, got, 'real input is modified in place')


def number(env, tol, cplx):
    """project_nonneg() of a single number."""
    ie, re, tr, kw = _tol(env, tol)
    x, y = env.scalar('x'), env.scalar('y')
    v = (x + 1j * y if cplx else x)
    if not env.symbolic:
        v = np.complex128(v) if cplx else np.float64(v)
    got, err = _call(env.mp.utils.pmf.project_nonneg, v, **kw)
    ok = x >= -re
    if cplx:
        ok = env.both(ok, abs(y) <= ie)
    if err is not None:
        env.check(~ok if env.symbolic else not ok, 'a number within the tolerances is accepted')
        return
    env.check(ok, 'a number beyond the tolerances is refused')
    env.equal(got, env.ite(x <= tr, 0.0, x), 'number')


def configs(tier):
    shapes = [(1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 1), (5,)] + ([(4,), (6,), (1, 2)] if tier != 'quick' else [])
    for t in ('default', 'eps', 'all'):
        for c in (False, True):
            yield 'number', dict(tol=t, cplx=c)
            for s in shapes:
                for f in ('nonneg', 'pmf'):
                    yield f, dict(shape=s, tol=t, cplx=c)
                    yield f, dict(shape=s, tol=t, cplx=c, kind='pmf', small=True)
