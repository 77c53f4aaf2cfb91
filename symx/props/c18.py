"""C18: estimators of linear functions."""
import numpy as np

from .c14 import Projection

BOUNDS = {'outcomes': '2-4 in total on 1-2 sites', 'functions': '1-3, arbitrary values',
          'samples': '2-3 per measurement, symbolic', 'weights': 'symbolic real or integer',
          'lists': '1-3 measurements',
          'matching measurements': '1-3 sites, elements proportional to X, Y, Z projectors, a basis close to Z, or the '
          'identity with symbolic factors'}
ASSUMES = ('norm() of an array in estimates from other measurements is replaced by its definition, '
           'which C09 decides; the projection onto probabilities by its argument (C27)')
OUTSIDE = ('more outcomes, functions or samples; matching of generic (not equal or clearly '
           'different) elements within the tolerance; rounding')


# ---- helpers ---------------------------------------------------------------
def _prob(env, name, nsd):
    """Arbitrary probabilities: the last one follows from the others."""
    tot = int(np.prod(nsd))
    p = [env.positive('%s%d' % (name, k)) for k in range(tot - 1)]
    if not env.symbolic:
        s = sum(p) + 0.1
        if not any('%s%d' % (name, k) in env.values for k in range(tot - 1)):
            p = [x / s for x in p]
    last = 1 - sum(p)
    env.assume(last >= 0)
    env.nonneg_fact(last)
    return p + [last]


def _obj(env, xs, shape=None):
    if not env.symbolic:
        return np.array(xs, dtype=float).reshape(shape if shape is not None else (len(xs),))
    from .. import arr as A
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return A.wrap(o.reshape(shape) if shape is not None else o, 'f')


def _mpp(env, p, dims):
    """Measurement on trivial Hilbert spaces with the given probabilities."""
    mp = env.mp
    nsd = [d for d in dims if d > 1]
    if len(dims) == 1:
        lts = [_obj(env, p, (1, dims[0], 1, 1, 1))]
    else:
        lts, left = [], 1
        for k, d in enumerate(dims[:-1]):
            e = np.eye(left * d).reshape((left, d, 1, 1, left * d))
            lts.append(env.const(e))
            left *= d
        lts.append(_obj(env, p, (left, dims[-1], 1, 1, 1)))
    m = mp.povm.MPPovm(lts)
    one = env.const(np.ones((1, 1, 1)))
    st = mp.MPArray([one] * len(dims))
    return m, st


class Fun(object):
    """A function of outcomes with arbitrary values."""

    def __init__(self, env, name, n):
        self.env, self.n = env, n
        self.v = env.tensor(name, (n,))
        self.args = []

    def __call__(self, s):
        self.args.append(s)
        return self.v


def _nsd(dims):
    return tuple(d for d in dims if d > 1)


def _mean_var(env, g, w, n):
    """Mean and unbiased variance estimate of the mean of the values g."""
    mean = sum(a * b for a, b in zip(g, w)) / n
    dev = 0
    for a, b in zip(g, w):
        d = a - mean
        q = b * (d * d)
        dev = dev + q
    if env.symbolic:
        env.inverse_lemma(n, 1)
        env.nonneg_fact(1 / n, 1 / (n - 1), dev)
    return mean, dev / n / (n - 1)


# ---- exact values ------------------------------------------------------------
def exact(env, dims, nf, given, eps):
    nsd = _nsd(dims)
    tot = int(np.prod(nsd))
    p = _prob(env, 'p', nsd)
    m, st = _mpp(env, p, dims)
    Projection(env, eps)
    if nf is None:
        funs = None
        f = [[1 if i == k else 0 for i in range(tot)] for k in range(tot)]
    else:
        funs = [Fun(env, 'f%d' % k, tot) for k in range(nf)]
        f = [list(env.raw(x.v)) for x in funs]
    kw = {} if eps == 1e-10 else {'eps': eps}
    if not given:
        e, cov = m.lfun(None, funs, st, 'mps', **kw)
        env.equal(e, _obj(env, [sum(a * b for a, b in zip(x, p)) for x in f]), 'values of the functions')
        want = []
        for x in f:
            for y in f:
                ex = sum(a * b for a, b in zip(x, p))
                ey = sum(a * b for a, b in zip(y, p))
                want.append(sum(a * b * c for a, b, c in zip(x, y, p)) - ex * ey)
        env.equal(cov, _obj(env, want, (len(f), len(f))), 'covariances of the functions')
    else:
        c = env.tensor('c', (len(f),))
        g = [sum(env.raw(c)[k] * f[k][i] for k in range(len(f))) for i in range(tot)]
        mean = sum(a * b for a, b in zip(g, p))
        dev = 0
        for a, b in zip(g, p):
            d = a - mean
            dev = dev + b * (d * d)
        env.nonneg_fact(dev)
        for e, v in (m.lfun(c, funs, st, 'mps', **kw),
                     env.mp.povm.MPPovmList([m]).lfun([c], None if funs is None else [funs], st, 'mps', **kw)):
            env.equal(e, mean, 'value')
            env.equal(v, dev, 'variance')
    if funs is not None:
        out = np.array(list(np.ndindex(*nsd)))
        for x in funs:
            for a in x.args:
                env.check(np.shape(a) == out.shape and bool((np.asarray(a) == out).all()),
                          'functions see every outcome')


def exact_list(env, dims, nf):
    """Values and variances of independent measurements add up."""
    Projection(env)
    ms, cs, fs, wm, wv = [], [], [], 0, 0
    for j, d in enumerate(dims):
        nsd = _nsd(d)
        tot = int(np.prod(nsd))
        p = _prob(env, 'p%d' % j, nsd)
        m, st = _mpp(env, p, d)
        ms.append(m)
        c = env.tensor('c%d' % j, (nf,))
        funs = [Fun(env, 'f%d%d' % (j, k), tot) for k in range(nf)]
        cs.append(c)
        fs.append(funs)
        f = [list(env.raw(x.v)) for x in funs]
        g = [sum(env.raw(c)[k] * f[k][i] for k in range(nf)) for i in range(tot)]
        mean = sum((a * b for a, b in zip(g, p)), 0)
        dev = 0
        for a, b in zip(g, p):
            dd = a - mean
            dev = dev + b * (dd * dd)
        if nf:
            env.nonneg_fact(dev)
        wm, wv = wm + mean, wv + dev
    e, v = env.mp.povm.MPPovmList(ms).lfun(cs, fs, st, 'mps')
    env.equal(e, wm, 'value of the sum')
    env.equal(v, wv, 'variance of the sum')


# ---- estimates from samples ----------------------------------------------------
def _samples(env, name, nsd, ns, dtype=np.uint8):
    return env.integers(name, [nsd] * ns, dtype)


def _weights(env, kind, ns, name='w'):
    """(argument, numbers)"""
    if kind is None:
        return None, [1] * ns
    if kind == 'i':
        w = env.integers(name, [5] * ns)
        n = 0
        for x in env.raw(w):
            n = n + x
        env.assume(n >= 2)
        return w, list(env.raw(w))
    ws = [env.positive('%s%d' % (name, k)) for k in range(ns)]
    if not env.symbolic:
        ws = [float(x) + (1.0 if name + '0' not in env.values else 0.0) for x in ws]
    env.assume(sum(ws) > 1)
    return _obj(env, ws), ws


def _values(env, nsd, nf, s, ns):
    """Functions to pass and their values on the samples."""
    raw = env.raw(s)
    if nf is None:
        f = []
        for o in np.ndindex(*nsd):
            f.append([env.ite(env.both(*[raw[i][j] == o[j] for j in range(len(nsd))]), 1, 0)
                      for i in range(ns)])
        return None, f
    funs = [Fun(env, 'f%d' % k, ns) for k in range(nf)]
    return funs, [list(env.raw(x.v)) for x in funs]


def estimate(env, dims, nf, ns, wkind, given, cf=1):
    nsd = _nsd(dims)
    m, _ = _mpp(env, [1.0 / int(np.prod(nsd))] * int(np.prod(nsd)), dims)
    s = _samples(env, 's', nsd, ns)
    arg, w = _weights(env, wkind, ns)
    funs, f = _values(env, nsd, nf, s, ns)
    n = sum(w)
    if not given:
        e, cov = m.est_lfun(None, funs, s, arg)
        means = [sum(a * b for a, b in zip(x, w)) / n for x in f]
        env.equal(e, _obj(env, means), 'estimates of the functions')
        want = []
        for x, mx in zip(f, means):
            for y, my in zip(f, means):
                want.append((sum(a * b * c for a, b, c in zip(x, y, w)) / n - mx * my) / (n - 1))
        env.equal(cov, _obj(env, want, (len(f), len(f))), 'estimated covariances of the estimates')
    else:
        c = env.tensor('c', (len(f),))
        g = [sum(env.raw(c)[k] * f[k][i] for k in range(len(f))) for i in range(ns)]
        mean, var = _mean_var(env, g, w, n)
        calls = [m.est_lfun(c, funs, s, arg)]
        if cf > 1 and arg is None:
            l = env.mp.povm.MPPovmList([m])
            calls.append(l.est_lfun([c], None if funs is None else [funs], [s]))
        for e, v in calls:
            env.equal(e, mean, 'estimate')
            env.equal(v, var, 'estimated variance')
    if funs is not None:
        for x in funs:
            for a in x.args:
                env.equal(a, s, 'functions see the samples')


def repeated(env, dims, counts, nf):
    """Weights that are counts are the same as repeated samples."""
    nsd = _nsd(dims)
    m, _ = _mpp(env, [1.0 / int(np.prod(nsd))] * int(np.prod(nsd)), dims)
    ns = len(counts)
    s = _samples(env, 's', nsd, ns)
    idx = [k for k, c in enumerate(counts) for _ in range(c)]
    rep = s[idx]
    raw, rawr = env.raw(s), env.raw(rep)
    w = np.array(counts)
    tables = [env.tensor('t%d' % k, nsd) for k in range(nf)]

    def look(t, r):
        rr = env.raw(r)
        out = []
        for i in range(rr.shape[0]):
            v = 0
            for o in np.ndindex(*nsd):
                v = v + env.ite(env.both(*[rr[i][j] == o[j] for j in range(len(nsd))]), 1, 0) * env.raw(t)[o]
            out.append(v)
        return _obj(env, out)
    funs = [lambda r, t=t: look(t, r) for t in tables]
    a = m.est_lfun
    wa, wb = dict(samples=s, weights=w), dict(samples=rep)
    coeff, fn = None, funs
    e1, v1 = a(coeff, fn, **wa)
    e2, v2 = a(coeff, fn, **wb)
    env.equal(e1, e2, 'weighted estimate = estimate from repeated samples')
    env.equal(v1, v2, 'weighted variance = variance from repeated samples')


def estimate_list(env, dims, nf, nss):
    ms, cs, fs, ss, wm, wv = [], [], [], [], 0, 0
    for j, (d, ns) in enumerate(zip(dims, nss)):
        nsd = _nsd(d)
        m, _ = _mpp(env, [1.0 / int(np.prod(nsd))] * int(np.prod(nsd)), d)
        s = _samples(env, 's%d' % j, nsd, ns)
        _, w = _weights(env, None, ns, 'w%d' % j)
        funs = [Fun(env, 'f%d%d' % (j, k), ns) for k in range(nf)]
        f = [list(env.raw(x.v)) for x in funs]
        c = env.tensor('c%d' % j, (nf,))
        g = [sum(env.raw(c)[k] * f[k][i] for k in range(nf)) for i in range(ns)]
        mean, var = _mean_var(env, g, w, sum(w))
        wm, wv = wm + mean, wv + var
        ms.append(m), cs.append(c), fs.append(funs), ss.append(s)
    l = env.mp.povm.MPPovmList(ms)
    e, v = l.est_lfun(cs, fs, ss)
    env.equal(e, wm, 'estimate of the sum')
    env.equal(v, wv, 'estimated variance of the sum')


def list_weights(env, ns):
    """A list of measurements uses the weights of the samples (known finding:
    the argument is ignored)."""
    m, _ = _mpp(env, [0.5, 0.5], (2,))
    s = _samples(env, 's', (2,), ns)
    arg, w = _weights(env, 'f', ns)
    fun = Fun(env, 'f', ns)
    c = env.tensor('c', (1,))
    g = [env.raw(c)[0] * x for x in env.raw(fun.v)]
    mean, var = _mean_var(env, g, w, sum(w))
    e, v = env.mp.povm.MPPovmList([m]).est_lfun([c], [[fun]], [s], [arg])
    if not env.symbolic:
        e0, v0 = m.est_lfun(c, [fun], s)
        same = lambda x, y: np.allclose(x, y, rtol=1e-12, atol=1e-14)
        env.check(same(e, mean) and same(v, var) or not (same(e, e0) and same(v, v0)),
                  'the weights are ignored')
    env.equal(e, mean, 'weighted estimate of a list')
    env.equal(v, var, 'weighted variance of a list')


# ---- estimates from other measurements --------------------------------------
DIR = {'Z0': [[1, 0], [0, 0]], 'Z1': [[0, 0], [0, 1]],
       'X0': [[.5, .5], [.5, .5]], 'X1': [[.5, -.5], [-.5, .5]],
       'Y0': [[.5, -.5j], [.5j, .5]], 'Y1': [[.5, .5j], [-.5j, .5]],
       # nearly parallel to Z: overlap (15/17)^2
       'W0': [[225 / 289, 120 / 289], [120 / 289, 64 / 289]], 'W1': [[64 / 289, -120 / 289], [-120 / 289, 225 / 289]],
       'I': [[1, 0], [0, 1]]}


def _basis(b):
    return [b] if b == 'I' else [b + '0', b + '1']


class Meas(object):
    """Product measurement; per site a list of (basis, factor), the factor a
    number or the name of a symbolic positive number."""

    def __init__(self, env, spec, part=False):
        self.env, self.n = env, len(spec)
        self.sites = []
        lts = []
        for site in spec:
            el = []
            for b, f in site:
                x = env.positive(f, scale=True) if isinstance(f, str) else f
                if part and isinstance(f, str):
                    if not env.symbolic and f not in env.values:
                        x = x / 4
                    env.assume(x < 1)
                el += [(d, x) for d in _basis(b)]
            self.sites.append(el)
            if env.symbolic:
                t = None
                for k, (d, x) in enumerate(el):
                    z = np.zeros((1, len(el), 2, 2, 1), complex)
                    z[0, k, :, :, 0] = DIR[d]
                    if not any('Y' in q for q, _ in el):
                        z = z.real
                    z = env.const(z) * x
                    t = z if t is None else t + z
            else:
                t = np.array([x * np.array(DIR[d], complex) for d, x in el])[None, ..., None]
                if not any('Y' in d for d, _ in el):
                    t = t.real
            lts.append(t)
        self.m = env.mp.povm.MPPovm(lts)
        self.dims = tuple(len(e) for e in self.sites)
        self.nspos = [k for k, d in enumerate(self.dims) if d > 1]
        self.nsd = tuple(d for d in self.dims if d > 1)

    def el(self, out):
        """Per site (direction, factor) of the outcome on the sites with outcomes."""
        it = iter(out)
        return [e[next(it)] if len(e) > 1 else e[0] for e in self.sites]


def _matches(env, a, b):
    """{(outcome of a, outcome of b on the common sites): prefactor}."""
    common = [k for k in b.nspos if len(a.sites[k]) > 1]
    res = {}
    for o in np.ndindex(*a.nsd):
        ea = a.el(o)
        for p in np.ndindex(*[b.dims[k] for k in common]):
            it = iter(p)
            pre = 1
            for k in range(a.n):
                da, fa = ea[k]
                if k in common:
                    db, fb = b.sites[k][next(it)]
                elif len(b.sites[k]) == 1:
                    db, fb = b.sites[k][0]
                else:           # all outcomes of b together: a multiple of 1
                    db, fb = 'I', 0
                    for d, f in b.sites[k][::2]:
                        fb = fb + f
                if da != db:
                    pre = None
                    break
                pre = pre * (fa / fb)
            if pre is not None:
                res[o, p] = pre
    return res, common


def match(env, a, b):
    A, B = Meas(env, a), Meas(env, b)
    env.eager()
    want, common = _matches(env, A, B)
    m, pre = A.m.match_elems(B.m)
    shape = A.nsd + tuple(B.dims[k] for k in common)
    env.check(np.shape(m) == shape and np.shape(pre) == shape, 'shape of the matches')
    for i in np.ndindex(*shape):
        o, p = i[:len(A.nsd)], i[len(A.nsd):]
        env.check(bool(m[i]) == ((o, p) in want), 'match %r %r' % (o, p))
        if (o, p) in want:
            env.equal(pre[i], want[o, p], 'prefactor')
        else:
            env.check(env.isnan(pre)[i], 'no prefactor without a match')


def _hit(env, A, B, common, row, p):
    """Does a sample of B agree with p on the common sites?"""
    cols = [B.nspos.index(k) for k in common]
    return env.both(*[row[c] == x for c, x in zip(cols, p)])


def _sym(a):
    from .. import arr
    return arr.as_symarray(a).ravel()


def _norms(env, A, want):
    """Proof hints: norms of the identity and of the sum of given elements."""
    if not env.symbolic:
        return
    from .. import term as T
    from .. import arr
    env.patch(env.mp.norm, lambda mpa: np.linalg.norm(_sym(env.dense(mpa))))
    one = arr.Sym(T.sqrt(T.const(2 ** A.n)), 'f')
    env.root_fact(one)
    frac = 0
    for o in sorted(set(o for o, _ in want)):
        f = 1
        for _, x in A.el(o):
            f = f * x
        frac = frac + f
    env.root_fact(one * (frac * (0.5 ** len(A.nsd))))


def pmf_from(env, a, b, ns):
    A, B = Meas(env, a, True), Meas(env, b)
    env.eager()
    want, common = _matches(env, A, B)
    _norms(env, A, want)
    s = _samples(env, 's', B.nsd, ns)
    raw = env.raw(s)
    e, used = A.m.est_pmf_from(B.m, s)
    env.check(np.shape(e) == A.nsd, 'shape of the estimate')
    got = env.isnan(e)
    cnt = 0
    for k in range(ns):
        c = 0
        for p in sorted(set(p for _, p in want)):
            c = c + env.ite(_hit(env, A, B, common, raw[k], p), 1, 0)
        cnt = cnt + c
    env.equal(used, cnt, 'number of samples used')
    for o in np.ndindex(*A.nsd):
        ps = [p for (x, p) in want if x == o]
        if not ps:
            env.check(got[o], 'no estimate without matching element')
            continue
        v = 0
        for p in ps:
            for k in range(ns):
                v = v + want[o, p] * env.ite(_hit(env, A, B, common, raw[k], p), 1, 0) / ns
        env.equal(e[o], v, 'estimated probability')


def pmf_from_list(env, a, bs, nss):
    A = Meas(env, a, True)
    Bs = [Meas(env, b) for b in bs]
    env.eager()
    env.symbolic_integers()
    ss = [_samples(env, 's%d' % j, B.nsd, ns) for j, (B, ns) in enumerate(zip(Bs, nss))]
    for B in Bs:
        _norms(env, A, _matches(env, A, B)[0])
    l = env.mp.povm.MPPovmList([B.m for B in Bs])
    res = [A.m.est_pmf_from_mpps(l, ss)]
    res += list(env.mp.povm.MPPovmList([A.m]).est_pmf_from(l, ss))
    env.check(len(res) == 2, 'one result per measurement')
    for e, used in res:
        env.check(np.shape(e) == A.nsd and np.shape(used) == A.nsd, 'shapes')
        for o in np.ndindex(*A.nsd):
            v, n = 0, 0
            for B, s, ns in zip(Bs, ss, nss):
                want, common = _matches(env, A, B)
                raw = env.raw(s)
                ps = [p for (x, p) in want if x == o]
                if not ps:
                    continue
                n = n + ns
                for p in ps:
                    for k in range(ns):
                        v = v + want[o, p] * env.ite(_hit(env, A, B, common, raw[k], p), 1, 0)
            env.equal(used[o], n, 'number of samples per probability')
            if n:
                env.equal(e[o], v / n, 'weighted average of the estimates')
            else:
                env.check(env.isnan(e)[o], 'no estimate without matching element')


def _plan(env, As, Bs, ns):
    """Definition of the estimator: per measurement in Bs a dict
    outcome -> list of terms (list index, outcome of it, factor)."""
    tab = [_matches(env, A, B) for A in As for B in Bs]
    tab = [tab[i * len(Bs):(i + 1) * len(Bs)] for i in range(len(As))]
    tot = {}
    for i, A in enumerate(As):
        for o in np.ndindex(*A.nsd):
            t = 0
            for j in range(len(Bs)):
                for (x, _) in tab[i][j][0]:
                    if x == o:
                        t = t + ns[j]
            tot[i, o] = t
    plan = []
    for j in range(len(Bs)):
        terms = []
        for i, A in enumerate(As):
            want, common = tab[i][j]
            for (o, p), pre in want.items():
                terms.append((i, o, common, p, pre * ns[j] / tot[i, o]))
        plan.append(terms)
    return plan, tot


def est_from(env, a, bs, nss):
    As = [Meas(env, x) for x in a]
    Bs = [Meas(env, b) for b in bs]
    env.eager()
    plan, tot = _plan(env, As, Bs, nss)
    cs = [env.tensor('c%d' % i, A.nsd) for i, A in enumerate(As)]
    ss = [_samples(env, 's%d' % j, B.nsd, ns) for j, (B, ns) in enumerate(zip(Bs, nss))]
    for i, A in enumerate(As):
        for o in np.ndindex(*A.nsd):
            env.assume(env.raw(cs[i])[o] != 0)
    mean, var = 0, 0
    for j, B in enumerate(Bs):
        raw = env.raw(ss[j])
        g = []
        for k in range(nss[j]):
            v = 0
            for i, o, common, p, f in plan[j]:
                h = _hit(env, As[i], B, common, raw[k], p)
                v = v + env.raw(cs[i])[o] * f * env.ite(h, 1, 0)
            g.append(v)
        mj, vj = _mean_var(env, g, [1] * nss[j], nss[j])
        mean, var = mean + mj, var + vj
    e, v = env.mp.povm.MPPovmList([A.m for A in As]).est_lfun_from(
        env.mp.povm.MPPovmList([B.m for B in Bs]), cs, ss)
    if any(tot[k] == 0 for k in tot):
        env.check(bool(env.isnan(np.asarray(e) if not env.symbolic else _obj(env, [e])).all()),
                  'nan if the function cannot be estimated')
        return
    env.equal(e, mean, 'estimate')
    env.equal(v, var, 'estimated variance')


def exact_from(env, a, bs, weighted):
    As = [Meas(env, x) for x in a]
    Bs = [Meas(env, b) for b in bs]
    env.eager()
    Projection(env)
    n = As[0].n
    w = [env.positive('w%d' % j, scale=True) for j in range(len(Bs))] if weighted else [1] * len(Bs)
    plan, tot = _plan(env, As, Bs, w)
    cs = [env.tensor('c%d' % i, A.nsd) for i, A in enumerate(As)]
    for i, A in enumerate(As):
        for o in np.ndindex(*A.nsd):
            env.assume(env.raw(cs[i])[o] != 0)
    # state: arbitrary diagonal-free density matrix would not give positive
    # probabilities for granted, so use a product of arbitrary qubit states
    st, prob = _state(env, n)
    value = 0
    for i, A in enumerate(As):
        for o in np.ndindex(*A.nsd):
            value = value + env.raw(cs[i])[o] * prob(A.el(o))
    dev = 0
    for j, B in enumerate(Bs):
        g, ps = [], []
        for o in np.ndindex(*B.nsd):
            v = 0
            for i, x, common, p, f in plan[j]:
                if all(o[B.nspos.index(k)] == q for k, q in zip(common, p)):
                    v = v + env.raw(cs[i])[x] * f
            g.append(v)
            ps.append(prob(B.el(o)))
        mean = sum(x * y for x, y in zip(g, ps))
        d = 0
        for x, y in zip(g, ps):
            d = d + y * ((x - mean) * (x - mean))
        env.nonneg_fact(d)
        dev = dev + d
    L = env.mp.povm.MPPovmList
    kw = dict(other_weights=_obj(env, w)) if weighted else {}
    e, v = L([A.m for A in As]).lfun_from(L([B.m for B in Bs]), cs, st, 'mpdo', **kw)
    if any(isinstance(t, int) and t == 0 for t in tot.values()):
        env.check(bool(env.isnan(np.asarray(e) if not env.symbolic else _obj(env, [e])).all()),
                  'nan if the function cannot be estimated')
        return
    env.equal(e, value, 'value')
    env.equal(v, dev, 'variance')


def _state(env, n):
    """Product of qubit states (1 + r.sigma)/2 given by the probabilities of
    the three bases; returns the state and the Born rule."""
    lts, tabs = [], []
    for k in range(n):
        z, x = env.positive('z%d' % k), env.positive('x%d' % k)
        if not env.symbolic:
            z = z if 'z%d' % k in env.values else 0.3 + 0.4 * (z % 1)
            x = x if 'x%d' % k in env.values else 0.3 + 0.4 * (x % 1)
        env.assume(z < 1)
        env.assume(x < 1)
        d = x - 0.5
        rho = [[z, d], [d, 1 - z]]
        if env.symbolic:
            lts.append(_obj(env, [z, d, d, 1 - z], (1, 2, 2, 1)))
        else:
            lts.append(np.array(rho).reshape((1, 2, 2, 1)))
        env.nonneg_fact(1 - z)
        env.nonneg_fact(1 - x)
        tabs.append({'Z0': z, 'Z1': 1 - z, 'X0': x, 'X1': 1 - x, 'Y0': 0.5, 'Y1': 0.5, 'I': 1})

    def prob(el):
        r = 1
        for (d, f), t in zip(el, tabs):
            r = r * (f * t[d])
        return r
    return env.mp.MPArray(lts), prob


W = [('W', 1)]
Z, X, Y, I = [('Z', 1)], [('X', 1)], [('Y', 1)], [('I', 1)]
P3 = [('X', 'a'), ('Y', 'b'), ('Z', 'c')]
P2 = [('X', 'a'), ('Z', 'b')]
M = {
    'zz': ([[('Z', 'a')]], [[('Z', 'b')]]),
    'pz': ([P3], [Z]), 'zp': ([Z], [P3]), 'pp': ([P3], [[('Z', 'd'), ('X', 'e')]]),
    'zx': ([[('Z', 'a')]], [[('X', 'b')]]), 'zi': ([Z], [I]),
    'iz': ([[('I', 'a')], [('Z', 'b')]], [[('X', 'c')], [('Z', 'd')]]),
    'pi': ([P2, [('I', 'd')]], [X, Z]), 'ip': ([I, P2], [Y, Z]),
    'p2': ([P2, P2], [X, Z]),
    'wz': ([[('W', 'a'), ('Z', 'b')]], [Z]), 'zw': ([[('Z', 'a')]], [[('W', 'b')]]), 'izw': ([I, Z], [X, W]),
    'zii': ([Z, I, X], [Z, Y, X]), 'ziq': ([P2, I, X], [Z, P3, X]),
}


def configs(tier):
    for w in M:
        yield 'match', dict(a=M[w][0], b=M[w][1])
    t2 = [('X', 't'), ('Z', 'u')]
    PF = [([Z], [Z], 2), ([t2], [X], 2), ([t2], [Z], 3), ([Z], [X], 2),
          ([I, t2], [X, Z], 2), ([t2, I], [X, Z], 2), ([t2, t2], [X, Z], 1),
          ([Z, I, X], [Z, Y, X], 1), ([Z], [W], 2), ([[('W', 't'), ('Z', 'u')]], [Z], 2)]
    for a, b, ns in PF:
        yield 'pmf_from', dict(a=a, b=b, ns=ns)
    big = tier != 'quick'
    PL = [([t2], [[X], [Z]], (2, 1) if big else (1, 1)), ([t2], [[X], [X]], (1, 2)), ([t2], [[X]], (2,)),
          ([t2, I], [[X, Z], [Z, Z]], (1, 2)), ([I, t2], [[X, Z], [Z, X], [Z, Z]], (1, 1, 2))]
    for a, bs, nss in PL:
        yield 'pmf_from_list', dict(a=a, bs=bs, nss=nss), dict(limit=300 if big else 90)
    EF = [([[Z]], [[Z]], (2,)), ([[Z]], [[Z], [Z]], (2, 3)), ([[Z], [X]], [[X], [Z]], (2, 2)),
          ([[t2]], [[X], [Z]], (2, 3)), ([[Z]], [[X]], (2,)), ([[Z, I]], [[Z, X], [Z, Z]], (2, 3)),
          ([[Z, I], [I, X]], [[Z, X], [X, X]], (2, 3)), ([[Z]], [[[('X', 0.5), ('Z', 0.5)]], [Z]], (2, 3)),
          ([[Z]], [[W], [Z]], (2, 3))]
    for a, bs, nss in EF:
        yield 'est_from', dict(a=a, bs=bs, nss=nss)
    XF = [([[Z]], [[Z]]), ([[Z]], [[Z], [Z]]), ([[Z], [X]], [[X], [Z]]), ([[t2]], [[X], [Z]]),
          ([[Z]], [[X]]), ([[Z, I]], [[Z, X], [Z, Z]]), ([[Z]], [[[('X', 0.5), ('Z', 0.5)]], [Z]])]
    for a, bs in XF:
        for wt in (False, True):
            yield 'exact_from', dict(a=a, bs=bs, weighted=wt)
    for c in configs1(tier):
        yield c


def configs1(tier):
    big = tier != 'quick'
    D1 = [(2,), (3,), (2, 2), (1, 3), (2, 1, 2)] + ([(4,), (2, 3), (3, 1)] if big else [])
    for d in D1:
        for nf in (None, 1, 2) + ((3,) if big else ()):
            for given in (False, True):
                yield 'exact', dict(dims=d, nf=nf, given=given, eps=1e-10)
        yield 'exact', dict(dims=d, nf=1, given=True, eps=1e-6)
    for dd in ([(2,), (3,)], [(3,), (2,), (2,)], [(2, 2), (1, 2)]):
        for nf in (0, 1, 2):
            if len(dd) == 3 and nf == 2 and not big:
                continue
            yield 'exact_list', dict(dims=dd, nf=nf)
    for d in [(2,), (2, 1, 2)] + ([(3,), (2, 2), (1, 3)] if big else []):
        for wk in (None, 'f', 'i'):
            for ns in (2, 3):
                for nf in (None, 1, 2) + ((3,) if big else ()):
                    if nf is None and np.prod(d) > 2 and (wk is not None or ns > 2) and not big:
                        continue
                    for given in (False, True):
                        yield 'estimate', dict(dims=d, nf=nf, ns=ns, wkind=wk, given=given,
                                               cf=2 if given and nf == 1 else 1)
    for d in [(2,), (3,)] + ([(2, 2)] if big else []):
        for counts in ((2, 1), (1, 3), (2, 2), (3, 0), (1, 1, 2)):
            for nf in (1, 2):
                yield 'repeated', dict(dims=d, counts=counts, nf=nf)
    for dd, nss in (([(2,), (3,)], (2, 3)), ([(2,), (2,), (2,)], (2, 2, 2)), ([(2, 2), (1, 3)], (3, 2))):
        for nf in (1, 2):
            if nf == 2 and not big and len(dd) == 3:
                continue
            yield 'estimate_list', dict(dims=dd, nf=nf, nss=nss)
    for ns in (2, 3):
        yield 'list_weights', dict(ns=ns)
