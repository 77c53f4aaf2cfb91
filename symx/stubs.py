"""Contract stubs for LAPACK-backed and random primitives.

Each stub returns arbitrary values constrained only by the documented contract
of the primitive.  USED records which contracts a run relied on.
"""
import numpy as np
import scipy.linalg

from . import arr as A
from . import term as T
from .arr import Sym, SymArray, as_symarray, base, implements, wrap, FUNCS
from .term import Unsupported

USED = {}


def used(name):
    USED[name] = USED.get(name, 0) + 1


def fresh_array(prefix, shape, kind, zero=None):
    T.CTX.counter += 1
    c = T.CTX.counter
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        if zero is not None and zero(i):
            o[i] = Sym(T.ZERO, kind)
        else:
            o[i] = Sym(T.var('%s!%d[%s]' % (prefix, c, ','.join(map(str, i))),
                             kind != 'c'), kind)
    return wrap(o, kind)


def matmul_nodes(a, b):
    """Plain triple loop over node matrices (lists of lists)."""
    n, m, p = len(a), len(b), len(b[0]) if b else 0
    out = []
    for i in range(n):
        row = []
        for j in range(p):
            s = T.ZERO
            for k in range(m):
                s = T.add(s, T.mul(a[i][k], b[k][j]))
            row.append(s)
        out.append(row)
    return out


def nodes(a):
    return [[e.node for e in row] for row in base(a)]


def dagger(m):
    return [[T.conj(m[i][j]) for i in range(len(m))] for j in range(len(m[0]))]


def assume_matrix(lhs, rhs, tag):
    """Hypothesise entrywise equality; triggered by any variable on either
    side is too broad, so these are always relevant (eager)."""
    for r1, r2 in zip(lhs, rhs):
        for x, y in zip(r1, r2):
            T.hyp_eq(x, y, tag)


def ident(n):
    return [[T.ONE if i == j else T.ZERO for j in range(n)] for i in range(n)]


def assume_isometry(m, tag):
    """m^H m = 1 (columns orthonormal); upper triangle suffices."""
    g = matmul_nodes(dagger(m), m)
    for i in range(len(g)):
        for j in range(i, len(g)):
            T.hyp_eq(g[i][j], T.ONE if i == j else T.ZERO, tag)


def sym_qr(a, mode='reduced', **kw):
    a = as_symarray(a)
    if a.ndim != 2:
        raise np.linalg.LinAlgError('qr of %d-dimensional array' % a.ndim)
    m, n = a.shape
    if mode in ('full', 'complete'):
        k = m
    elif mode in ('reduced', 'economic'):
        k = min(m, n)
    else:
        raise Unsupported('qr mode %r' % mode)
    used('qr')
    kind = A.floating(a._kind)
    q = fresh_array('q', (m, k), kind)
    r = fresh_array('r', (k, n), kind)      # triangularity is not needed
    assume_matrix(nodes(a), matmul_nodes(nodes(q), nodes(r)), 'qr:a=qr')
    assume_isometry(nodes(q), 'qr:q^Hq=1')
    if m == k:
        assume_isometry(dagger(nodes(q)), 'qr:qq^H=1')
    return q, r


def sym_svd(a, full_matrices=True, compute_uv=True, **kw):
    a = as_symarray(a)
    if a.ndim != 2:
        raise Unsupported('svd of stacked arrays')
    m, n = a.shape
    k = min(m, n)
    used('svd')
    kind = A.floating(a._kind)
    mu, nv = (m, n) if full_matrices else (k, k)
    u = fresh_array('u', (m, mu), kind)
    s = fresh_array('s', (k,), 'f')
    v = fresh_array('v', (nv, n), kind)
    T.CTX.aux.setdefault('svdlog', []).append((list(base(s)), u, v))
    un, vn, sn = nodes(u), nodes(v), [e.node for e in base(s)]
    us = [[T.mul(un[i][j], sn[j]) for j in range(k)] for i in range(m)]
    assume_matrix(nodes(a), matmul_nodes(us, vn[:k]), 'svd:a=usv')
    assume_isometry(un, 'svd:u^Hu=1')
    assume_isometry(dagger(vn), 'svd:vv^H=1')
    if mu == m:
        assume_isometry(dagger(un), 'svd:uu^H=1')
    if nv == n:
        assume_isometry(vn, 'svd:v^Hv=1')
    for i in range(k):
        T.CTX.aux[('nonneg', sn[i].id)] = True
        T.hyp_bool(T.le(T.ZERO, sn[i]), 'svd:s>=0', sn[i])
        if i:
            T.hyp_bool(T.le(sn[i], sn[i - 1]), 'svd:sorted', sn[i])
    if not compute_uv:
        return s
    return u, s, v


def sym_eigh(a, *args, **kw):
    a = as_symarray(a)
    n = a.shape[0]
    used('eigh')
    kind = A.floating(a._kind)
    v = fresh_array('ev', (n, n), kind)
    w = fresh_array('ew', (n,), 'f')
    vn, wn = nodes(v), [e.node for e in base(w)]
    # the contract presupposes a Hermitian argument: use its lower triangle
    an = nodes(a)
    h = [[an[i][j] if i > j else (T.re(an[i][i]) if i == j else T.conj(an[j][i]))
          for j in range(n)] for i in range(n)]
    assume_matrix(matmul_nodes(h, vn),
                  [[T.mul(vn[i][j], wn[j]) for j in range(n)] for i in range(n)],
                  'eigh:av=vw')
    assume_isometry(vn, 'eigh:v^Hv=1')
    assume_isometry(dagger(vn), 'eigh:vv^H=1')
    for i in range(1, n):
        T.hyp_bool(T.le(wn[i - 1], wn[i]), 'eigh:sorted', wn[i])
    return w, v


def sym_eigvalsh(a, *args, **kw):
    return sym_eigh(a)[0]


def sym_inv(a):
    a = as_symarray(a)
    n = a.shape[0]
    used('inv')
    b = fresh_array('minv', (n, n), A.floating(a._kind))
    assume_matrix(matmul_nodes(nodes(a), nodes(b)), ident(n), 'inv')
    assume_matrix(matmul_nodes(nodes(b), nodes(a)), ident(n), 'inv')
    return b


def sym_pinv(a, *args, **kw):
    a = as_symarray(a)
    m, n = a.shape
    used('pinv')
    b = fresh_array('pinv', (n, m), A.floating(a._kind))
    an, bn = nodes(a), nodes(b)
    assume_matrix(matmul_nodes(matmul_nodes(an, bn), an), an, 'pinv:aba=a')
    assume_matrix(matmul_nodes(matmul_nodes(bn, an), bn), bn, 'pinv:bab=b')
    ab, ba = matmul_nodes(an, bn), matmul_nodes(bn, an)
    assume_matrix(dagger(ab), ab, 'pinv:ab=ab^H')
    assume_matrix(dagger(ba), ba, 'pinv:ba=ba^H')
    return b


def sym_lu(a, permute_l=False, **kw):
    """A = PL U, U upper triangular (nothing else is assumed about PL)."""
    if not permute_l:
        raise Unsupported('lu')
    used('lu')
    a = as_symarray(a)
    m, n = a.shape
    k = min(m, n)
    kind = A.floating(a._kind)
    l = fresh_array('lul', (m, k), kind)
    u = fresh_array('luu', (k, n), kind)
    assume_matrix(nodes(a), matmul_nodes(nodes(l), nodes(u)), 'lu')
    return l, u


FUNCS[np.linalg.qr] = sym_qr
FUNCS[np.linalg.svd] = sym_svd
FUNCS[np.linalg.eigh] = sym_eigh
FUNCS[np.linalg.eigvalsh] = sym_eigvalsh
FUNCS[np.linalg.inv] = sym_inv
FUNCS[np.linalg.pinv] = sym_pinv


def _unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


for _n in ('eig', 'eigvals', 'solve', 'lstsq', 'det', 'slogdet', 'matrix_rank',
           'cholesky', 'cond', 'matrix_power', 'tensorsolve', 'tensorinv'):
    if _n == 'matrix_power':
        continue
    FUNCS[getattr(np.linalg, _n)] = _unsupported('linalg.' + _n)
for _f in (np.sort, np.argsort, np.unique, np.histogram, np.round_,
           np.around):
    FUNCS[_f] = _unsupported(_f.__name__)


class SymRandom(object):
    """Random generator: every draw is an arbitrary value of its range."""

    def __init__(self, name='rng'):
        self.name = name
        self.draws = 0

    def _arr(self, shape):
        self.draws += 1
        used('random draw')
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            nm = '%s.%d[%s]' % (self.name, self.draws, ','.join(map(str, i)))
            o[i] = Sym(T.var(nm, True), 'f')
        return wrap(o, 'f') if len(shape) else o[()]

    def randn(self, *shape):
        return self._arr(tuple(int(s) for s in shape))

    def standard_normal(self, size=None):
        return self._arr(_shape(size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._arr(_shape(size)) * scale + loc

    def random_sample(self, size=None):
        a = self._arr(_shape(size))
        for e in (base(a).flat if isinstance(a, SymArray) else [a]):
            T.hyp_bool(T.le(T.ZERO, e.node), 'u>=0', e.node)
            T.hyp_bool(T.lt(e.node, T.ONE), 'u<1', e.node)
        return a

    random = random_sample

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.random_sample(size) * (high - low) + low

    def __getattr__(self, name):
        raise Unsupported('random.' + name)


def _shape(size):
    if size is None:
        return ()
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)
