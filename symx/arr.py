"""Symbolic scalars and arrays that flow through the real mpnum/numpy code."""
import numbers
import operator

import numpy as np

from . import term as T
from .term import Unsupported

F64, C128, B1 = np.dtype(np.float64), np.dtype(np.complex128), np.dtype(bool)
I8, U1 = np.dtype(np.int64), np.dtype(np.uint8)
DTYPES = {'f': F64, 'c': C128, 'b': B1, 'i': I8, 'u': U1}

# hook: callable(bool node) -> bool, installed by path.py
BRANCH = [None]


def _branch(node):
    if node is T.TRUE:
        return True
    if node is T.FALSE:
        return False
    if BRANCH[0] is None:
        raise Unsupported('branch on a symbolic condition')
    return BRANCH[0](node)


class SymBool(object):
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def __bool__(self):
        return _branch(self.node)

    def __and__(self, o):
        return SymBool(T.and_(self.node, as_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(T.or_(self.node, as_bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(T.not_(self.node))

    logical_not = __invert__

    def all(self, axis=None, out=None, keepdims=False):
        return self

    any = all
    dtype = B1
    shape = ()
    ndim = 0

    def __repr__(self):
        return 'SymBool(%r)' % self.node


def as_bool(x):
    if isinstance(x, SymBool):
        return x.node
    if isinstance(x, Sym):
        return T.not_(T.eq(x.node, T.ZERO))
    return T.TRUE if x else T.FALSE


def _kind_of_number(x):
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, SymBool):
        return 'b'
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, numbers.Real)):
        return 'f'
    return None


def node_of(x):
    if isinstance(x, Sym):
        return x.node
    if isinstance(x, SymBool):
        return T.ite(x.node, T.ONE, T.ZERO)
    if isinstance(x, T.Node):
        return x
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, numbers.Number):
        return T.from_number(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return node_of(x.item())
    raise Unsupported('not a number: %r' % (type(x),))


def _up(a, b):
    for k in 'cf':
        if k in (a, b):
            return k
    return 'i'


def floating(kind):
    return kind if kind in 'fc' else 'f'


class Sym(numbers.Number):
    """Symbolic float64 ('f') or complex128 ('c') scalar."""
    __slots__ = ('node', 'kind')
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, node, kind='f'):
        self.node = node
        self.kind = kind

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        k = _kind_of_number(o)
        if k is None:
            if isinstance(o, np.ndarray):
                o = o.item()
                k = _kind_of_number(o)
            if k is None:
                return NotImplemented
        n = node_of(o)
        a, b = (n, self.node) if swap else (self.node, n)
        k = _up(self.kind, k)
        return Sym(f(a, b), floating(k) if f is _div else k)

    def __add__(self, o):
        return self._bin(o, T.add)

    def __radd__(self, o):
        return self._bin(o, T.add, True)

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        return self._bin(o, T.sub, True)

    def __mul__(self, o):
        return self._bin(o, T.mul)

    def __rmul__(self, o):
        return self._bin(o, T.mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True)

    def __neg__(self):
        return Sym(T.neg(self.node), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(T.absolute(self.node), 'f')

    def __pow__(self, e):
        if isinstance(e, Sym):
            if not T.is_const(e.node):
                raise Unsupported('symbolic exponent')
            e = e.node.args[0]
        if isinstance(e, np.ndarray):
            if e.ndim:
                return NotImplemented
            e = e.item()
        if e == 0.5:
            return self.sqrt()
        if e == -0.5:
            return 1 / self.sqrt()
        if int(e) != e:
            raise Unsupported('non-integer power')
        e = int(e)
        if e < 0:
            return 1 / (self ** (-e))
        r = T.ONE
        for _ in range(e):
            r = T.mul(r, self.node)
        return Sym(r, self.kind)

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    # -- numpy ufunc hooks on object arrays
    def conjugate(self):
        return Sym(T.conj(self.node), self.kind)

    conj = conjugate

    def sqrt(self):
        if self.kind == 'c' and not self.node.real:
            raise Unsupported('complex sqrt')
        return Sym(T.sqrt(self.node), self.kind)

    @property
    def real(self):
        return Sym(T.re(self.node), 'f')

    @property
    def imag(self):
        return Sym(T.im(self.node), 'f')

    @property
    def dtype(self):
        return C128 if self.kind == 'c' else F64

    @property
    def T(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def sum(self, *a, **k):
        return self

    def astype(self, dt):
        return cast_scalar(self, np.dtype(dt))

    def reshape(self, *shape):
        return as_symarray(self).reshape(*shape)

    def ravel(self):
        return as_symarray(self).reshape((1,))

    def __getitem__(self, idx):
        return as_symarray(self)[idx]

    def isfinite(self):
        return True

    # -- comparisons
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        if _kind_of_number(o) is None and not isinstance(o, np.ndarray):
            return NotImplemented
        return SymBool(f(self.node, node_of(o)))

    def __le__(self, o):
        return self._cmp(o, T.le)

    def __lt__(self, o):
        return self._cmp(o, T.lt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a))

    def __eq__(self, o):
        return self._cmp(o, T.eq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: T.not_(T.eq(a, b)))

    __hash__ = None

    def __bool__(self):
        return _branch(T.not_(T.eq(self.node, T.ZERO)))

    # -- conversions
    def __float__(self):
        n = self.node
        if n.op == 'c' and n.args[1] == 0:
            return float(n.args[0])
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        n = self.node
        if n.op == 'c':
            return complex(float(n.args[0]), float(n.args[1]))
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        n = self.node
        if n.op == 'c' and n.args[1] == 0:
            return int(n.args[0])
        raise Unsupported('int() of a symbolic value')

    def __round__(self, *a):
        raise Unsupported('round() of a symbolic value')

    def __repr__(self):
        return 'Sym%s(%s)' % (self.kind, T.show(self.node))


def _div(a, b):
    if a is T.ZERO and b is T.ZERO:
        return T.var('NaN', True)
    return T.mul(a, T.inv(b))


# ---------------------------------------------------------------------------
# arrays
# ---------------------------------------------------------------------------
def _mk_elem(kind):
    def f(x):
        if isinstance(x, Sym):
            if x.kind == kind:
                return x
            if kind == 'f' and not x.node.real:
                return Sym(T.re(x.node), 'f')
            if kind in 'iu' and x.kind in 'fc' or kind == 'u':
                return to_integer(x, DTYPES[kind])
            if kind == 'b':
                return SymBool(as_bool(x))
            return Sym(x.node, kind)
        if kind == 'b':
            return x if isinstance(x, SymBool) else SymBool(as_bool(x))
        if x is None:
            v = T.fresh('uninit', kind != 'c')
            if kind in 'iu':
                v = T.ivar(v.args[0])
            return Sym(v, kind)
        return Sym(node_of(x), kind)
    return np.frompyfunc(f, 1, 1)


_ELEM = {k: _mk_elem(k) for k in 'fcbiu'}


def to_integer(x, dt):
    """Element cast to an integer type (wraps around like numpy)."""
    dt = np.dtype(dt)
    n = node_of(x)
    kind = 'u' if dt == U1 else 'i'
    if not T.is_integer(n):
        raise Unsupported('cast of a real value to integer')
    info = np.iinfo(dt)
    lo, hi = T.const(int(info.min)), T.const(int(info.max))
    if _branch(T.and_(T.le(lo, n), T.le(n, hi))):
        return Sym(n, kind)
    w, k = T.ivar('wrap!%d' % n.id), T.ivar('wrapk!%d' % n.id)
    T.hyp_eq(n, T.add(w, T.mul(T.const(int(info.max) - int(info.min) + 1), k)), 'wrap', w)
    T.hyp_bool(T.and_(T.le(lo, w), T.le(w, hi)), 'wrap', w)
    return Sym(w, kind)


def base(a):
    return a.view(np.ndarray)


def wrap(a, kind):
    """Object ndarray -> SymArray of given kind (elements normalised)."""
    if not isinstance(a, np.ndarray):
        x = _ELEM[kind](a)
        return x
    if a.size:
        out = _ELEM[kind](a)
        if not isinstance(out, np.ndarray):      # 0-d
            o = np.empty((), dtype=object)
            o[()] = out
            out = o
    else:
        out = np.empty(a.shape, dtype=object)
    r = out.view(SymArray)
    r._kind = kind
    return r


def rewrap_view(a, kind):
    """Object ndarray whose elements are already normalised (keeps memory)."""
    r = a.view(SymArray)
    r._kind = kind
    return r


def kind_of_dtype(dt):
    dt = np.dtype(dt)
    return {'f': 'f', 'c': 'c', 'b': 'b', 'i': 'i', 'u': 'u' if dt == U1 else 'i'}.get(dt.kind)


def kind_of(x):
    """numpy kind of an operand as far as promotion is concerned, or None."""
    if isinstance(x, SymArray):
        return x._kind
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            ks = [_kind_of_number(e) for e in x.flat]
            return combine([k for k in ks if k])
        return kind_of_dtype(x.dtype)
    return _kind_of_number(x)


def as_symarray(x, kind=None):
    if isinstance(x, SymArray):
        return x if kind in (None, x._kind) else wrap(base(x), kind)
    if isinstance(x, Sym):
        o = np.empty((), dtype=object)
        o[()] = x
        return wrap(o, kind or x.kind)
    if isinstance(x, np.ndarray):
        k = kind or kind_of(x)
        return wrap(x.astype(object) if x.dtype != object else x, k)
    return as_symarray(np_array(x), kind)


def has_sym(x, depth=0):
    if isinstance(x, (SymArray, Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (Sym, SymBool)) for e in x.flat)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def kinds_in(x, acc):
    if isinstance(x, (list, tuple)):
        for e in x:
            kinds_in(e, acc)
    else:
        k = kind_of(x)
        if k:
            acc.append(k)
    return acc


def combine(kinds, default='f'):
    if 'c' in kinds:
        return 'c'
    for k in 'fiub':
        if k in kinds:
            return k
    return default


def cast_scalar(x, dt):
    k = kind_of_dtype(dt)
    if dt.kind in 'iu':
        return to_integer(x, dt)
    return _ELEM[k](x)


def unwrap(x):
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, tuple):
        return tuple(unwrap(e) for e in x)
    if isinstance(x, list):
        return [unwrap(e) for e in x]
    return x


# comparisons of real arrays fork at once instead of building conditions
EAGER = [False]
# a[mask] = x forks on the mask instead of building if-then-else
FORKMASK = [False]


class SymArray(np.ndarray):
    """ndarray of dtype object holding Sym elements; reports float/complex."""
    __array_priority__ = 100
    _kind = 'f'

    def __array_finalize__(self, obj):
        if isinstance(obj, SymArray):
            self._kind = obj._kind

    @property
    def dtype(self):
        return DTYPES[self._kind]

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.itemsize * self.size

    # -- element access
    def __getitem__(self, idx):
        idx = _index(idx, self)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, value):
        if not self.flags.writeable:
            raise ValueError('assignment destination is read-only')
        if isinstance(idx, SymArray) and idx._kind == 'b':
            return self._masked_set(idx, value)
        idx = _index(idx, self)
        if isinstance(value, np.ndarray) or isinstance(value, (list, tuple)):
            v = base(as_symarray(value, self._kind))
        else:
            v = _ELEM[self._kind](value)
        np.ndarray.__setitem__(base(self), idx, v)

    def _masked_set(self, mask, value):
        me = base(self)
        m = base(mask)
        if m.shape != me.shape:
            raise Unsupported('boolean mask of different shape')
        v = value
        for i in np.ndindex(*me.shape):
            c = as_bool(m[i])
            if FORKMASK[0]:
                c = T.TRUE if _branch(c) else T.FALSE
            x = node_of(v if not isinstance(v, np.ndarray) or v.ndim == 0 else v[i])
            if self._kind == 'b':
                y = as_bool(me[i])
                x = as_bool(v if not isinstance(v, np.ndarray) or v.ndim == 0 else v[i])
                me[i] = SymBool(T.or_(T.and_(c, x), T.and_(T.not_(c), y)))
            else:
                me[i] = Sym(T.ite(c, x, me[i].node), self._kind)

    # -- simple methods
    @property
    def real(self):
        if self._kind != 'c':
            return self
        return wrap(_REAL(base(self)) if self.ndim else _REAL(base(self)), 'f')

    @property
    def imag(self):
        return wrap(_IMAG(base(self)), 'f')

    def conj(self, *a, **k):
        return wrap(_CONJ(base(self)), self._kind)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt == object:
            return base(self).copy()
        if dt.kind in 'iu':
            o = np.empty(self.shape, dtype=object)
            for i in np.ndindex(*self.shape):
                o[i] = to_integer(base(self)[i], dt)
            return rewrap_view(o, kind_of_dtype(dt))
        return wrap(base(self), kind_of_dtype(dt))

    def _red(self, fn, kind, *a, **k):
        k.pop('dtype', None)
        out = k.pop('out', None)
        r = fn(base(self), *a, **k)
        r = _result(r, kind)
        if out is not None:
            out[...] = r
            return out
        return r

    def sum(self, *a, **k):
        return as_symarray(self, _num_kind(self))._red(np.sum, _num_kind(self), *a, **k)

    def prod(self, *a, **k):
        return self._red(np.prod, self._kind, *a, **k)

    def cumsum(self, *a, **k):
        return self._red(np.cumsum, self._kind, *a, **k)

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis)
        n = self.size if axis is None else _axis_len(self.shape, axis)
        return s / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        if axis is not None or out is not None or k:
            raise Unsupported('var')
        d = self - self.mean()
        return (d * d.conj()).real.sum() / (self.size - ddof)

    def std(self, *a, **k):
        return np.sqrt(self.var(*a, **k))

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def trace(self, *a, **k):
        return self._red(np.trace, self._kind, *a, **k)

    def dot(self, other):
        return np.dot(self, other)

    def _breduce(self, f, axis, k):
        if k.pop('out', None) is not None or k.pop('keepdims', False) or k:
            raise Unsupported('all/any with further arguments')
        if axis is None:
            return SymBool(f(*[as_bool(e) for e in base(self).flat]))
        ax = axis if isinstance(axis, tuple) else (axis,)
        ax = sorted(a % self.ndim for a in ax)
        rest = [a for a in range(self.ndim) if a not in ax]
        b = base(self).transpose(rest + ax)
        o = np.empty([self.shape[a] for a in rest], dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = SymBool(f(*[as_bool(e) for e in np.asarray(b[i], dtype=object).flat]))
        return rewrap_view(o, 'b') if o.ndim else o[()]

    def all(self, axis=None, **k):
        return self._breduce(T.and_, axis, k)

    def any(self, axis=None, **k):
        return self._breduce(T.or_, axis, k)

    def nonzero(self):
        return np.nonzero(np.array([_branch(as_bool(e)) for e in base(self).flat],
                                   dtype=bool).reshape(self.shape))

    def max(self, axis=None, **k):
        if axis is not None:
            return _along(self, axis, lambda x: x.max(), **k)
        it = iter(base(self).flat)
        m = next(it)
        for e in it:
            if e > m:
                m = e
        return m

    def min(self, axis=None, **k):
        if axis is not None:
            return _along(self, axis, lambda x: x.min(), **k)
        it = iter(base(self).flat)
        m = next(it)
        for e in it:
            if e < m:
                m = e
        return m

    def round(self, *a, **k):
        raise Unsupported('round')

    def argmax(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('argmax(axis)')
        it = list(base(self).flat)
        j = 0
        for i, e in enumerate(it):
            if e > it[j]:
                j = i
        return j

    def argmin(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('argmin(axis)')
        it = list(base(self).flat)
        j = 0
        for i, e in enumerate(it):
            if e < it[j]:
                j = i
        return j

    def sort(self, *a, **k):
        raise Unsupported('sort')

    argsort = searchsorted = sort

    def fill(self, value):
        self[...] = value

    def tolist(self):
        return base(self).tolist()

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        e = base(self).flat[0]
        return bool(e)

    def __float__(self):
        return float(base(self).item())

    def __complex__(self):
        return complex(base(self).item())

    def __repr__(self):
        return 'SymArray(%s, %s)' % (self._kind, base(self).tolist())

    __str__ = __repr__

    def __reduce__(self):
        raise Unsupported('pickle of symbolic array')

    def tobytes(self, *a):
        raise Unsupported('tobytes')

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        kinds = kinds_in(list(args) + list(kwargs.values()), [])
        kind = combine([k for a in _arrays(args, kwargs) for k in [kind_of(a)] if k]
                       or kinds)
        out = kwargs.pop('out', None)
        r = func(*unwrap(tuple(args)), **{k: unwrap(v) for k, v in kwargs.items()})
        if func in _SUMS:
            r = _empty_sums(r)
        r = _result(r, kind)
        if out is not None:
            out[...] = r
            return out
        return r


_SUMS = {np.dot, np.inner, np.vdot, np.tensordot}


def _empty_sums(r):
    """numpy gives None for empty sums of objects."""
    if r is None:
        return 0
    if isinstance(r, np.ndarray) and r.size and r.flat[0] is None:
        return np.zeros(r.shape, dtype=int).astype(object)
    return r


def _arrays(args, kwargs):
    out = []

    def go(x):
        if isinstance(x, np.ndarray) or isinstance(x, Sym):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            for e in x:
                go(e)
        elif isinstance(x, complex):
            out.append(x)
    for a in args:
        go(a)
    for a in kwargs.values():
        go(a)
    return out


def _axis_len(shape, axis):
    if isinstance(axis, tuple):
        n = 1
        for a in axis:
            n *= shape[a]
        return n
    return shape[axis]


def _result(r, kind):
    if isinstance(r, tuple):
        return tuple(_result(e, kind) for e in r)
    if isinstance(r, list):
        return [_result(e, kind) for e in r]
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.size and all(isinstance(e, (bool, np.bool_, SymBool)) for e in r.flat):
                return wrap(r, 'b')
            return wrap(r, kind)
        return r
    if isinstance(r, (Sym, int, float, complex)) and not isinstance(r, bool):
        return _ELEM[kind](r)
    return r


def _index(idx, arr):
    """Concretise symbolic index parts."""
    if isinstance(idx, SymArray):
        if idx._kind == 'b':
            vals = [as_bool(e) for e in base(idx).flat]
            vals = [_branch(v) for v in vals]
            return np.array(vals, dtype=bool).reshape(idx.shape)
        if idx._kind in 'iu':
            # concretise: fork over the positions
            return np.array([_concretise(e, arr) for e in base(idx).flat],
                            dtype=int).reshape(idx.shape)
        raise Unsupported('symbolic float index')
    if isinstance(idx, tuple):
        return tuple(_index(i, arr) for i in idx)
    if isinstance(idx, Sym):
        if idx.kind in 'iu':
            return _concretise(idx, arr)
        raise IndexError('only integers, slices are valid indices')
    return idx


def _concretise(x, arr):
    n = node_of(x)
    if n.op == 'c':
        return int(n.args[0])
    top = max(arr.shape) if arr.ndim else 0
    for j in range(top):
        if _branch(T.eq(n, T.const(j))):
            return j
    raise IndexError('index out of bounds')


_REAL = np.frompyfunc(lambda x: x.real, 1, 1)
_IMAG = np.frompyfunc(lambda x: x.imag, 1, 1)
_CONJ = np.frompyfunc(lambda x: x.conjugate(), 1, 1)
_ABS = np.frompyfunc(lambda x: abs(x), 1, 1)
_SQRT = np.frompyfunc(lambda x: x.sqrt(), 1, 1)


def _bin(op):
    return np.frompyfunc(op, 2, 1)


def _cmpf(op):
    def f(a, b):
        a = a if isinstance(a, (Sym, SymBool)) else Sym(node_of(a), _kind_of_number(a) or 'f')
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            x, y = as_bool(a), as_bool(b)
            same = T.or_(T.and_(x, y), T.and_(T.not_(x), T.not_(y)))
            if op is operator.eq:
                return SymBool(same)
            if op is operator.ne:
                return SymBool(T.not_(same))
            raise Unsupported('order of booleans')
        r = op(a, b)
        return r if isinstance(r, SymBool) else SymBool(as_bool(r))
    return np.frompyfunc(f, 2, 1)


def _max2(a, b):
    a, b = _ELEM['f'](a), _ELEM['f'](b)
    c = T.le(b.node, a.node)
    return Sym(T.ite(c, a.node, b.node), 'f')


def _min2(a, b):
    a, b = _ELEM['f'](a), _ELEM['f'](b)
    c = T.le(a.node, b.node)
    return Sym(T.ite(c, a.node, b.node), 'f')


_CMP = {np.less: _cmpf(operator.lt), np.less_equal: _cmpf(operator.le),
        np.greater: _cmpf(operator.gt), np.greater_equal: _cmpf(operator.ge),
        np.equal: _cmpf(operator.eq), np.not_equal: _cmpf(operator.ne)}
_LOGIC = {np.logical_and: _bin(lambda a, b: SymBool(T.and_(as_bool(a), as_bool(b)))),
          np.logical_or: _bin(lambda a, b: SymBool(T.or_(as_bool(a), as_bool(b)))),
          np.bitwise_and: _bin(lambda a, b: SymBool(T.and_(as_bool(a), as_bool(b)))),
          np.bitwise_or: _bin(lambda a, b: SymBool(T.or_(as_bool(a), as_bool(b)))),
          np.logical_not: np.frompyfunc(lambda a: SymBool(T.not_(as_bool(a))), 1, 1),
          np.invert: np.frompyfunc(lambda a: SymBool(T.not_(as_bool(a))), 1, 1)}
_UNARY = {np.absolute: (_ABS, 'f'), np.conjugate: (_CONJ, None),
          np.sqrt: (_SQRT, None),
          np.square: (np.frompyfunc(lambda x: x * x, 1, 1), None),
          np.negative: (np.frompyfunc(lambda x: -x, 1, 1), None),
          np.positive: (np.frompyfunc(lambda x: x, 1, 1), None),
          np.reciprocal: (np.frompyfunc(lambda x: 1 / x, 1, 1), None),
          np.isfinite: (np.frompyfunc(lambda x: SymBool(T.TRUE), 1, 1), 'b'),
          np.isnan: (np.frompyfunc(lambda x: SymBool(T.is_nan(node_of(x))), 1, 1), 'b'),
          np.isinf: (np.frompyfunc(lambda x: SymBool(T.FALSE), 1, 1), 'b')}
_ARITH = {np.add: operator.add, np.subtract: operator.sub, np.multiply: operator.mul,
          np.true_divide: operator.truediv, np.power: operator.pow}
_ARITH_F = {k: _bin(v) for k, v in _ARITH.items()}


def _objin(x):
    """Operand -> object-dtype ndarray (or scalar) of Sym-compatible values."""
    if isinstance(x, SymArray):
        return base(x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return base(as_symarray(x))
    if isinstance(x, (list, tuple)):
        return base(as_symarray(np_array(x)))
    return x


class BoolArray(np.ndarray):
    """Plain booleans that can be indexed by symbolic integers."""

    def __getitem__(self, idx):
        if has_sym(idx):
            idx = _index(idx, self)
        return np.ndarray.__getitem__(self, idx)

    def __array_function__(self, func, types, args, kwargs):
        return func(*_plain(tuple(args)), **{k: _plain(v) for k, v in kwargs.items()})

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        r = getattr(ufunc, method)(*_plain(inputs), **{k: _plain(v) for k, v in kw.items()})
        if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype == bool:
            r = r.view(BoolArray)
        return r


def _plain(x):
    if isinstance(x, BoolArray):
        return x.view(np.ndarray)
    if isinstance(x, (tuple, list)):
        return type(x)(_plain(e) for e in x)
    return x


def _num1(x):
    return Sym(node_of(x), 'i') if isinstance(x, (SymBool, bool, np.bool_)) else x


_NUM1 = np.frompyfunc(_num1, 1, 1)


def _numeric(x):
    """Booleans as integers."""
    if isinstance(x, np.ndarray):
        return _NUM1(x)
    return _num1(x)


def _ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    where = kw.pop('where', True)
    if where is not True:
        raise Unsupported('ufunc where=')
    kinds = [kind_of(x) for x in inputs]
    kinds = [k for k in kinds if k]
    kind = combine(kinds)
    ins = [_objin(x) for x in inputs]
    if method == '__call__':
        if ufunc in _CMP:
            r, ik, kind = _CMP[ufunc](*ins), kind, 'b'
            if EAGER[0] and ik in 'fc' and out is None:
                if isinstance(r, np.ndarray):
                    return np.array([_branch(as_bool(e)) for e in r.flat],
                                    dtype=bool).reshape(r.shape).view(BoolArray)
                return np.bool_(_branch(as_bool(r)))
        elif ufunc in _LOGIC:
            r, kind = _LOGIC[ufunc](*ins), 'b'
        elif ufunc in _UNARY:
            f, k = _UNARY[ufunc]
            r = f(ins[0])
            kind = k or (floating(kind) if ufunc in (np.sqrt, np.reciprocal) else kind)
            if ufunc is np.absolute and combine(kinds) in 'iu':
                kind = combine(kinds)
            if kind == 'b' and not k:
                raise Unsupported('ufunc %s of booleans' % ufunc.__name__)
        elif ufunc in _ARITH_F:
            if ufunc is np.true_divide:
                kind = floating(kind)
            elif kind == 'b':
                if ufunc in (np.add, np.multiply):
                    f = T.or_ if ufunc is np.add else T.and_
                    ins = [np.asarray(x, dtype=object) for x in ins]
                    return _result(_bin(lambda a, b: SymBool(f(as_bool(a), as_bool(b))))(*ins), 'b')
                raise Unsupported('ufunc %s of booleans' % ufunc.__name__)
            elif kind == 'i' and 'u' in kinds and all(
                    k in 'ub' or not isinstance(x, (np.ndarray, Sym))
                    for k, x in zip(kinds, inputs)) and all(
                    not isinstance(x, int) or 0 <= x < 256 for x in inputs):
                kind = 'u'              # value based casting of a scalar
            r = _ARITH_F[ufunc](*[_numeric(x) for x in ins])
            if kind == 'u':
                r = as_symarray(np.asarray(r, dtype=object), 'i').astype(np.uint8)
                r = r if r.ndim else base(r)[()]
        elif ufunc is np.matmul:
            r = np.matmul(*ins)
        elif ufunc in (np.maximum, np.fmax):
            r = _bin(_max2)(*ins)
        elif ufunc in (np.minimum, np.fmin):
            r = _bin(_min2)(*ins)
        else:
            raise Unsupported('ufunc %s' % ufunc.__name__)
    elif method in ('reduce', 'accumulate') and ufunc in (np.add, np.multiply):
        r = getattr(ufunc, method)(ins[0], *ins[1:], **kw)
    elif method == 'reduce' and ufunc in (np.logical_and, np.logical_or):
        f = T.and_ if ufunc is np.logical_and else T.or_
        return SymBool(f(*[as_bool(e) for e in np.asarray(ins[0]).flat]))
    elif method == 'outer' and ufunc in _ARITH_F:
        a, b = np.asarray(ins[0], dtype=object), np.asarray(ins[1], dtype=object)
        r = _ARITH_F[ufunc](a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported('ufunc %s.%s' % (ufunc.__name__, method))
    r = _result(r, kind) if not isinstance(r, (SymBool, Sym)) else r
    if isinstance(r, Sym) and kind in 'fci':
        r = _ELEM[kind](r)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SymArray):
            raise Unsupported('symbolic result into a plain array')
        if not o.flags.writeable:
            raise ValueError('output array is read-only')
        if (o._kind, kind) in (('f', 'c'), ('i', 'f'), ('i', 'c'), ('u', 'f'),
                               ('u', 'c'), ('u', 'i'), ('b', 'i'), ('b', 'f')):
            raise TypeError("Cannot cast ufunc '%s' output from %s to %s with casting "
                            "rule 'same_kind'" % (ufunc.__name__, DTYPES[kind], DTYPES[o._kind]))
        o[...] = r
        return o
    return r


# ---------------------------------------------------------------------------
# __array_function__ overrides
# ---------------------------------------------------------------------------
FUNCS = {}


def implements(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


@implements(np.ndim)
def _ndim(a):
    return a.ndim if isinstance(a, np.ndarray) else np.ndim(unwrap(a))


@implements(np.shape)
def _shape(a):
    return a.shape if isinstance(a, np.ndarray) else np.shape(unwrap(a))


@implements(np.size)
def _size(a, axis=None):
    return np.size(base(a) if isinstance(a, np.ndarray) else unwrap(a), axis)


@implements(np.may_share_memory)
def _may_share(a, b, max_work=None):
    return np.may_share_memory(base(a), base(b))


@implements(np.shares_memory)
def _shares(a, b, max_work=None):
    return np.shares_memory(base(a), base(b))


@implements(np.common_type)
def _common_type(*arrays):
    ks = []
    for a in arrays:
        ks.append(kind_of(a))
    return np.complex128 if 'c' in ks else np.float64


@implements(np.result_type)
def _result_type(*arrays):
    ks = []
    for a in arrays:
        k = kind_of(a)
        if k is None:
            k = kind_of_dtype(np.dtype(a))
        ks.append(k)
    return DTYPES[combine(ks)]


@implements(np.can_cast)
def _can_cast(a, to, casting='safe'):
    return np.can_cast(a.dtype, to, casting)


@implements(np.iscomplexobj)
def _iscomplexobj(a):
    return kind_of(a) == 'c'


@implements(np.isrealobj)
def _isrealobj(a):
    return kind_of(a) != 'c'


@implements(np.real)
def _real(a):
    return a.real


@implements(np.imag)
def _imag(a):
    return a.imag


@implements(np.zeros_like, np.ones_like, np.empty_like)
def _like(*a, **k):
    raise Unsupported('like')


def _mk_like(fill):
    def f(a, dtype=None, order=None, subok=True, shape=None):
        k = kind_of(a) if dtype is None else kind_of_dtype(dtype)
        sh = tuple(a.shape) if shape is None else shape
        o = np.empty(sh, dtype=object)
        o[...] = fill
        return wrap(o, k)
    return f


FUNCS[np.zeros_like] = _mk_like(0)
FUNCS[np.ones_like] = _mk_like(1)
FUNCS[np.empty_like] = _mk_like(None)


@implements(np.full_like)
def _full_like(a, fill_value, dtype=None, **kw):
    k = kind_of(a) if dtype is None else kind_of_dtype(dtype)
    o = np.empty(tuple(a.shape), dtype=object)
    o[...] = fill_value
    return wrap(o, k)


@implements(np.copyto)
def _copyto(dst, src, casting='same_kind', where=True):
    if where is not True:
        raise Unsupported('copyto where')
    dst[...] = src


@implements(np.copy)
def _copy(a, **kw):
    return a.copy()


@implements(np.where)
def _where(c, *xy):
    if not xy:
        raise Unsupported('where(cond)')
    x, y = xy
    k = combine(kinds_in([x, y], []))
    f = np.frompyfunc(lambda c, a, b: Sym(T.ite(as_bool(c), node_of(a), node_of(b)), k), 3, 1)
    return _result(f(_objin(c), _objin(x), _objin(y)), k)


@implements(np.all)
def _all(a, axis=None, **k):
    return a.all(axis)


@implements(np.any)
def _any(a, axis=None, **k):
    return a.any(axis)


@implements(np.max, np.amax)
def _amax(a, axis=None, **k):
    return as_symarray(a).max(axis)


@implements(np.min, np.amin)
def _amin(a, axis=None, **k):
    return as_symarray(a).min(axis)


@implements(np.argmax)
def _argmax(a, axis=None, **k):
    return as_symarray(a).argmax(axis)


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return as_symarray(a)._red(np.sum, _num_kind(a), axis=axis, keepdims=keepdims)


def _num_kind(a):
    k = kind_of(a)
    return 'i' if k in 'bu' else k


@implements(np.nansum)
def _nansum(a, axis=None, **k):
    a = as_symarray(a)
    f = np.frompyfunc(lambda x: Sym(T.ite(T.is_nan(x.node), T.ZERO, x.node), x.kind), 1, 1)
    return wrap(f(base(a)), a._kind).sum(axis=axis)


@implements(np.argwhere)
def _argwhere(a):
    return np.transpose(as_symarray(a).nonzero())


@implements(np.nonzero)
def _nonzero(a):
    return as_symarray(a).nonzero()


@implements(np.ravel_multi_index)
def _ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    if mode != 'raise':
        raise Unsupported('ravel_multi_index mode')
    rows = [as_symarray(r) for r in multi_index]
    if len(rows) != len(dims):
        raise ValueError('parameter multi_index must be a sequence of length %d' % len(dims))
    rng = []
    for r, d in zip(rows, dims):
        if r._kind not in 'iu':
            raise TypeError('only int indices permitted')
        for e in base(r).flat:
            rng += [T.le(T.ZERO, e.node), T.le(e.node, T.const(int(d) - 1))]
    if not _branch(T.and_(*rng)):
        raise ValueError('invalid entry in coordinates array')
    out = None
    pairs = list(zip(rows, dims))
    for r, d in (pairs if order == 'C' else reversed(pairs)):
        r = as_symarray(r, 'i')
        out = r if out is None else out * int(d) + r
    return out


@implements(np.unravel_index)
def _unravel_index(indices, shape, order='C'):
    a = as_symarray(indices)
    if a._kind not in 'iu':
        raise TypeError('only int indices permitted')
    total = 1
    for d in shape:
        total *= int(d)
    rng = []
    for e in base(a).flat:
        rng += [T.le(T.ZERO, e.node), T.le(e.node, T.const(total - 1))]
    if not _branch(T.and_(*rng)):
        raise ValueError('index is out of bounds for array with size %d' % total)
    outs = [np.empty(a.shape, dtype=object) for _ in shape]
    for i in np.ndindex(*a.shape):
        n = base(a)[i].node
        acc = T.ZERO
        for k, d in (list(enumerate(shape)) if order == 'C' else list(enumerate(shape))[::-1]):
            v = T.ivar('digit!%d!%d!%s' % (n.id, k, 'x'.join(map(str, shape)) + order))
            if not T.CTX.aux.get(('digit', v.id)):
                T.CTX.aux[('digit', v.id)] = True
                T.hyp_bool(T.and_(T.le(T.ZERO, v), T.le(v, T.const(int(d) - 1))), 'digit', v)
            outs[k][i] = Sym(v, 'i')
            acc = T.add(T.mul(acc, T.const(int(d))), v)
        T.hyp_eq(n, acc, 'unravel', outs[0][i].node if outs else None)
    return tuple(wrap(o, 'i') for o in outs)


@implements(np.bincount)
def _bincount(x, weights=None, minlength=0):
    x = as_symarray(x)
    if x.ndim != 1:
        raise ValueError('object too deep for desired array')
    if x._kind not in 'iu':
        raise TypeError("Cannot cast array data to integer according to the rule 'safe'")
    es = [e.node for e in base(x)]
    if not _branch(T.and_(*[T.le(T.ZERO, e) for e in es])):
        raise ValueError("'list' argument must have no negative elements")
    n = int(minlength)
    while not _branch(T.and_(*[T.le(e, T.const(n - 1)) for e in es])):
        n += 1
        if n > int(minlength) + 64:
            raise Unsupported('bincount of values without bound')
    ws = [T.ONE] * len(es) if weights is None else [
        e.node for e in base(as_symarray(weights))]
    o = np.empty(n, dtype=object)
    kind = 'i' if weights is None else 'f'
    for j in range(n):
        acc = T.ZERO
        for e, w in zip(es, ws):
            acc = T.add(acc, T.ite(T.eq(e, T.const(j)), w, T.ZERO))
        o[j] = Sym(acc, kind)
    return wrap(o, kind)


@implements(np.vdot)
def _vdot(a, b):
    a, b = as_symarray(a), as_symarray(b)
    return (a.ravel().conj() * b.ravel()).sum()


def _along(a, axis, f, keepdims=False, **k):
    """f of the slices of a along one axis."""
    if isinstance(axis, tuple):
        if len(axis) != 1:
            raise Unsupported('several axes')
        axis, = axis
    a = as_symarray(a)
    axis = range(a.ndim)[axis]
    m = np.moveaxis(base(a), axis, 0)
    out = np.empty(m.shape[1:], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(wrap(m[(slice(None),) + i].copy(), a._kind))
    if keepdims:
        out = np.expand_dims(out, axis)
    return as_symarray(out)


@implements(np.average)
def _average(a, axis=None, weights=None, returned=False, **k):
    if returned or k:
        raise Unsupported('average')
    a = as_symarray(a)
    if weights is None:
        return np.mean(a, axis=axis)
    w = as_symarray(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported('average: shapes')
        ax = range(a.ndim)[axis]
        w = w.reshape([-1 if i == ax else 1 for i in range(a.ndim)])
        return np.sum(a * w, axis=axis) / np.sum(w)
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


@implements(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np.where(as_symarray(c) if has_sym(c) else c, v, r)
    return r


@implements(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    if axis is not None and ord in (None, 2) and not isinstance(axis, tuple):
        return _along(x, axis, _norm, keepdims)
    if ord not in (None, 'fro', 2) or axis is not None or (ord == 2 and np.ndim(x) > 1):
        raise Unsupported('norm with ord/axis')
    x = as_symarray(x)
    s = T.ZERO
    for e in base(x).flat:
        s = T.add(s, T.mul(e.node, T.conj(e.node)))
    return Sym(T.sqrt(s), 'f')


@implements(np.array_equal)
def _array_equal(a, b, **k):
    if tuple(getattr(a, "shape", ())) != tuple(getattr(b, "shape", ())):
        return False
    return (as_symarray(a) == as_symarray(b)).all()


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.abs(a - b) <= atol + rtol * np.abs(as_symarray(b))


@implements(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(_isclose(as_symarray(a), as_symarray(b), rtol, atol)))


@implements(np.searchsorted)
def _searchsorted(a, v, side='left', sorter=None):
    """First index i with v <= a[i] (left) / v < a[i] (right); forks."""
    if sorter is not None or np.ndim(v) != 0:
        raise Unsupported('searchsorted')
    el = list(_objin(a))
    vn = Sym(node_of(v), 'f')
    for i, x in enumerate(el):
        x = _ELEM['f'](x)
        c = (vn <= x) if side == 'left' else (vn < x)
        if c:
            return i
    return len(el)


@implements(np.count_nonzero)
def _count_nonzero(a, axis=None, **k):
    return sum(1 if _branch(as_bool(e)) else 0 for e in base(as_symarray(a)).flat)


@implements(np.einsum)
def _einsum(*ops, **kw):
    r = einsum(*ops)
    out = kw.get('out')
    if out is not None:
        out[...] = r
        return out
    return r


_NODES = np.frompyfunc(node_of, 1, 1)


def _ellipsis(ins, outs, arrs):
    """Replace '...' by labels of their own (one per broadcast axis)."""
    wide = [a.ndim - len(s.replace('...', '')) if '...' in s else 0
            for s, a in zip(ins, arrs)]
    extra = [('...', i) for i in range(max(wide))]
    flat = ''.join(ins).replace('.', '')
    if outs is None:
        outs = '...' + ''.join(sorted(l for l in set(flat) if flat.count(l) == 1))

    def widen(s, labels):
        if '...' not in s:
            return list(s)
        a, b = s.split('...')
        return list(a) + labels + list(b)
    return ([widen(s, extra[len(extra) - w:]) for s, w in zip(ins, wide)], widen(outs, extra))


def einsum(*ops):
    if isinstance(ops[0], str):
        subs = ops[0].replace(' ', '')
        arrs = [as_symarray(o) for o in ops[1:]]
        if '->' in subs:
            ins, outs = subs.split('->')
            ins = ins.split(',')
        else:
            ins = subs.split(',')
            outs = None
        if '.' in subs:
            ins, outs = _ellipsis(ins, outs, arrs)
        ins = [list(s) for s in ins]
    else:
        arrs, ins, outs = [], [], None
        i = 0
        while i + 1 < len(ops):
            arrs.append(as_symarray(ops[i]))
            ins.append(list(ops[i + 1]))
            i += 2
        if i < len(ops):
            outs = list(ops[i])
    if outs is None:
        flat = [l for s in ins for l in s]
        outs = sorted(l for l in set(flat) if flat.count(l) == 1)
    outs = list(outs)
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError('einsum: subscripts do not match operand')
        for l, d in zip(s, a.shape):
            if isinstance(l, tuple) and dims.get(l, 1) == 1:
                dims[l] = d             # broadcast axis
            elif dims.setdefault(l, d) != d and not (isinstance(l, tuple) and d == 1):
                raise ValueError('einsum: dimension mismatch')
    summed = [l for l in dims if l not in outs]
    kind = combine([a._kind for a in arrs])
    out = np.empty([dims[l] for l in outs], dtype=object)
    bs = [np.asarray(_NODES(base(a)), dtype=object) for a in arrs]
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outs, oi))
        acc = T.ZERO
        for si in np.ndindex(*[dims[l] for l in summed]):
            env.update(zip(summed, si))
            p = T.ONE
            for s, a in zip(ins, bs):
                p = T.mul(p, a[tuple(env[l] if n > 1 else 0 for l, n in zip(s, a.shape))])
                if p is T.ZERO:
                    break
            acc = T.add(acc, p)
        out[oi] = Sym(acc, kind)
    return wrap(out, kind) if out.ndim else out[()]


# ---------------------------------------------------------------------------
# creation
# ---------------------------------------------------------------------------
def np_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    if not has_sym(obj):
        r = np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin)
        if r.dtype == object and r.size and all(
                isinstance(e, (Sym, int, float, complex)) for e in r.flat):
            pass
        return r
    if isinstance(obj, SymArray):
        r = obj.copy() if copy else obj
        if dtype is not None and np.dtype(dtype) != object:
            r = r.astype(dtype)
        elif dtype is not None:
            return base(obj).copy()
    else:
        if dtype is not None and np.dtype(dtype) == object:
            return np.array(unwrap(obj), dtype=object, ndmin=ndmin)
        kinds = kinds_in(obj, [])
        k = combine(kinds) if dtype is None else kind_of_dtype(dtype)
        o = np.array(unwrap(obj), dtype=object)
        r = wrap(o, k)
    while r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(obj, dtype=None, order=None, **kw):
    if isinstance(obj, SymArray) and (dtype is None or np.dtype(dtype) == obj.dtype):
        return obj
    if not has_sym(obj):
        return np.asarray(obj, dtype=dtype)
    return np_array(obj, dtype=dtype)


# integer arrays created by the code are symbolic (set by harnesses that let
# symbolic integers flow into such arrays)
INTEGERS = [False]


def _fill(shape, dtype, value):
    kinds = 'fciu' if INTEGERS[0] else 'fc'
    k = kind_of_dtype(dtype) if np.dtype(dtype).kind in kinds else None
    if k is None:
        return None
    o = np.empty(shape, dtype=object)
    o[...] = value
    return wrap(o, k)


def np_zeros(shape, dtype=float, order='C', **kw):
    r = _fill(shape, dtype, 0)
    return np.zeros(shape, dtype) if r is None else r


def np_ones(shape, dtype=None, order='C', **kw):
    r = _fill(shape, float if dtype is None else dtype, 1)
    return np.ones(shape, dtype) if r is None else r


def np_empty(shape, dtype=float, order='C', **kw):
    r = _fill(shape, dtype, None)
    return np.empty(shape, dtype) if r is None else r


def np_full(shape, fill_value, dtype=None, order='C', **kw):
    if dtype is None:
        k = kind_of(fill_value)
        if isinstance(fill_value, (int, np.integer)):
            return np.full(shape, fill_value)
        dtype = complex if k == 'c' else float
    r = _fill(shape, dtype, fill_value)
    return np.full(shape, fill_value, dtype) if r is None else r


def np_eye(N, M=None, k=0, dtype=float, order='C', **kw):
    if np.dtype(dtype).kind not in 'fc':
        return np.eye(N, M, k, dtype)
    return as_symarray(np.eye(N, M, k, float), kind_of_dtype(dtype))


def np_identity(n, dtype=float, **kw):
    return np_eye(n, dtype=float if dtype is None else dtype)


def np_like(fname):
    fn = getattr(np, fname)

    def f(a, dtype=None, *args, **kw):
        if isinstance(a, SymArray):
            return FUNCS[fn](a, dtype, *args, **kw)
        r = fn(a, dtype, *args, **kw)
        return as_symarray(r) if r.dtype.kind in 'fc' else r
    return f


CREATION = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray,
    'ascontiguousarray': np_asarray, 'asfortranarray': np_asarray,
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_empty, 'full': np_full,
    'eye': np_eye, 'identity': np_identity,
    'zeros_like': np_like('zeros_like'), 'ones_like': np_like('ones_like'),
    'empty_like': np_like('empty_like'),
}
