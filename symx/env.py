"""Harness environments: the same harness runs symbolically and concretely."""
import hashlib
import random

import numpy as np


class Skip(BaseException):
    """Concrete run: an assumption of the harness is not met."""


class Broken(BaseException):
    """Concrete run: the property does not hold."""


def _rng(seed, name):
    h = hashlib.sha256(('%s/%s' % (seed, name)).encode()).hexdigest()
    return random.Random(int(h[:16], 16))


class Base(object):
    # -- replacing helpers -------------------------------------------------
    def patch(self, real, new):
        """Replace the function `real` wherever the mpnum modules refer to it,
        until the end of this run."""
        import sys
        todo = self.__dict__.setdefault('_patched', [])
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'mpnum' or name.startswith('mpnum.')):
                continue
            for k, v in list(mod.__dict__.items()):
                if v is real:
                    todo.append((mod.__dict__, k, v))
                    mod.__dict__[k] = new

    def patch_attr(self, cls, name, new):
        """Replace an attribute of a class until the end of this run."""
        self.__dict__.setdefault('_attrs', []).append((cls, name, cls.__dict__[name]))
        setattr(cls, name, new)

    def sparse_hook(self, name, new):
        """Replace the function of scipy.sparse.linalg until the end of this run."""
        import scipy.sparse.linalg as ssl
        if self.symbolic:
            from .sparse import HOOKS
            HOOKS[name] = new
            self._hooks = HOOKS
        else:
            real = getattr(ssl, name)
            self.patch(real, new)
            self._patched.append((ssl.__dict__, name, real))
            setattr(ssl, name, new)

    def close(self):
        self.__dict__.pop('_hooks', {}).clear()
        for c, k, v in reversed(self.__dict__.pop('_attrs', [])):
            setattr(c, k, v)
        for d, k, v in reversed(self.__dict__.pop('_patched', [])):
            d[k] = v

    # -- building inputs -------------------------------------------------
    def lts(self, name, shapes, ranks, cplx=False, cform=None, outer=(1, 1)):
        """Local tensors. cplx: bool or one bool per site. cform=(l, r)."""
        n = len(shapes)
        rk = [outer[0]] + list(ranks) + [outer[1]]
        cs = list(cplx) if isinstance(cplx, (list, tuple)) else [cplx] * n
        l, r = cform if cform is not None else (0, n)
        out = []
        for k, s in enumerate(shapes):
            shape = (rk[k],) + tuple(s) + (rk[k + 1],)
            iso = 'left' if k < l else ('right' if k >= r else None)
            out.append(self.tensor('%s%d' % (name, k), shape, cs[k], iso))
        return out

    def mpa(self, name, shapes, ranks, cplx=False, cform=None, cls=None):
        mp = self.mp
        lts = self.lts(name, shapes, ranks, cplx, cform)
        cls = cls or mp.MPArray
        if cform is None:
            return cls(lts)
        return cls(mp.mpstruct.LocalTensors(lts, cform=tuple(cform)))

    # -- oracle helpers (independent of mpnum) ---------------------------
    def contract(self, lts):
        """Definition of the represented tensor, virtual legs kept."""
        lts = [self.raw(t) for t in lts]
        res = lts[0]
        for t in lts[1:]:
            res = self.tdot(res, t, [res.ndim - 1], [0])
        return res

    def dense(self, mpa):
        return self.contract(list(mpa.lt))[0, ..., 0]

    def tdot(self, a, b, ax, bx):
        return np.tensordot(a, b, (list(ax), list(bx)))

    def outer(self, a, b):
        return np.tensordot(a, b, ((), ()))

    def shape_of(self, mpa):
        return tuple(tuple(t.shape[1:-1]) for t in mpa.lt)

    def claims(self, mpa, what):
        """Every site claimed canonical is an isometry; claims are ranges."""
        lts = list(mpa.lt)
        l, r = mpa.canonical_form
        n = len(lts)
        self.check(0 <= l < n and 0 < r <= n, what + ': canonical form in range')
        if not (0 <= l < n and 0 < r <= n):
            return
        for k in range(l):
            m = self.raw(lts[k])
            m = m.reshape((-1, m.shape[-1]))
            self.equal(self.tdot(self.conj(m), m, [0], [0]),
                       np.eye(m.shape[1]), what + ': site %d left-canonical' % k)
        for k in range(r, n):
            m = self.raw(lts[k])
            m = m.reshape((m.shape[0], -1))
            self.equal(self.tdot(m, self.conj(m), [1], [1]),
                       np.eye(m.shape[0]), what + ': site %d right-canonical' % k)

    def ite(self, cond, a, b):
        return a if cond else b

    def both(self, *conds):
        return all(bool(c) for c in conds)

    def no(self, cond):
        return not bool(cond)

    def snapshot(self, mpa):
        return ([self.raw(t).copy() for t in mpa.lt], tuple(mpa.canonical_form),
                type(mpa))

    def unchanged(self, mpa, snap, what):
        lts, cf, cls = snap
        now = list(mpa.lt)
        if len(now) != len(lts):
            self.check(False, what + ': length changed')
            return
        for k, (a, b) in enumerate(zip(now, lts)):
            self.equal(a, b, what + ': operand site %d unchanged' % k)
        self.check(tuple(mpa.canonical_form) == cf, what + ': operand canonical form unchanged')

    def raises(self, exc, fn, what):
        try:
            fn()
        except exc:
            self.check(True, what + ': must raise')
            return
        self.check(False, what + ': must raise')


class Sampler(object):
    """Stands for a random generator: choice() returns any possible outcome
    and records the probability it was given for it."""

    def __init__(self, env):
        self.env, self.draws = env, []

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a)
        if p is None:
            p = [1.0 / n] * n
        p = list(p)
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        out = []
        for _ in range(1 if size is None else int(size)):
            k = self.env.outcome(p)
            self.draws.append((p, k))
            out.append(k)
        return out[0] if size is None else np.array(out)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self.env.unsupported('random.' + name)


class ConcEnv(Base):
    """Concrete execution on the unpatched code (replay and validation)."""
    symbolic = False

    def __init__(self, mpnum, values=None, choices=None, seed=0, tol=1e-6):
        self.mp = mpnum
        self.values = values or {}
        self.choices = list(choices) if choices is not None else None
        self.nchoice = 0
        self.seed = seed
        self.tol = tol
        self.checked = 0

    def _val(self, name, cplx):
        v = self.values.get(name)
        if v is None:
            r = _rng(self.seed, name)
            v = r.uniform(-1, 1) * 1.5
            if cplx:
                v = v + 1j * r.uniform(-1, 1) * 1.5
        return v if cplx else (v.real if isinstance(v, complex) else v)

    def tensor(self, name, shape, cplx=False, iso=None):
        a = np.empty(shape, dtype=complex if cplx else float)
        for i in np.ndindex(*shape):
            a[i] = self._val('%s[%s]' % (name, ','.join(map(str, i))), cplx)
        if iso == 'left':
            m = a.reshape((-1, shape[-1]))
            a = np.linalg.qr(m)[0].reshape(shape)
        elif iso == 'right':
            m = a.reshape((shape[0], -1))
            a = np.linalg.qr(m.T)[0].T.reshape(shape)
        return a

    def scalar(self, name, cplx=False):
        return self._val(name, cplx)

    def positive(self, name, scale=False):
        v = self._val(name, False)
        return abs(v) + (0.1 if name not in self.values else 0.0)

    def choose(self, name, options):
        options = list(options)
        if self.choices is not None and self.nchoice < len(self.choices):
            k = self.choices[self.nchoice]
        else:
            k = _rng(self.seed, 'choice/%s/%d' % (name, self.nchoice)).randrange(len(options))
        self.nchoice += 1
        return options[k]

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def unsupported(self, what):
        raise Skip()

    def integers(self, name, dims, dtype=np.int64):
        dims = np.asarray(dims)
        a = np.empty(dims.shape, dtype=dtype)
        for i in np.ndindex(*dims.shape):
            nm = '%s[%s]' % (name, ','.join(map(str, i)))
            v = self.values.get(nm)
            if v is None:
                v = _rng(self.seed, nm).randrange(int(dims[i]))
            if not 0 <= int(round(v)) < dims[i]:
                raise Skip()
            a[i] = int(round(v))
        return a

    def const(self, a):
        return a

    def isnan(self, a):
        return np.isnan(a)

    def symbolic_integers(self):
        pass

    fork_masks = eager = symbolic_integers

    def nonneg_fact(self, *factors):
        pass

    def inverse_lemma(self, n, k):
        pass

    def root_fact(self, x):
        pass

    def suppose(self, cond):
        self.assume(cond)

    def outcome(self, p):
        """Any outcome with positive probability."""
        n = len(p)
        k = self.choose('outcome', range(n))
        if self.choices is None:
            for j in range(n):
                if p[(k + j) % n] > 0:
                    return (k + j) % n
        self.assume(p[k] > 0)
        return k

    def raw(self, a):
        return np.asarray(a)

    def conj(self, a):
        return np.conj(a)

    def equal(self, actual, expected, what):
        self.checked += 1
        a, b = np.asarray(actual), np.asarray(expected)
        if a.dtype == object or b.dtype == object:
            raise Broken('%s: not numeric (dtype object)' % what)
        if a.shape != b.shape:
            raise Broken('%s: shape %r instead of %r' % (what, a.shape, b.shape))
        if a.size == 0:
            return
        scale = max(1.0, np.max(np.abs(b)))
        d = np.abs(a - b)
        if not np.all(np.isfinite(d)) or np.max(d) > self.tol * scale:
            i = np.unravel_index(int(np.argmax(np.nan_to_num(d, nan=1e300))), d.shape)
            raise Broken('%s: entry %r is %r instead of %r' % (what, tuple(map(int, i)), a[i], b[i]))

    def same(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.allclose(a, b))

    def check(self, cond, what):
        self.checked += 1
        if not bool(cond):
            raise Broken(what)

    def nonneg(self, x, what):
        self.checked += 1
        if not float(np.real(x)) >= -self.tol:
            raise Broken('%s: %r is negative' % (what, x))

    def cut(self, *arrays):
        pass

    def svd_mark(self):
        return None

    def svd_values(self, mark, matrix):
        return list(np.linalg.svd(np.asarray(matrix), compute_uv=False))

    def rng(self, name='rng'):
        h = hashlib.sha256(('%s/%s' % (self.seed, name)).encode()).hexdigest()
        return np.random.RandomState(int(h[:8], 16))


def make_symenv():
    from . import arr as A
    from . import stubs
    from . import term as T
    from .arr import Sym, SymArray, as_symarray, base

    class SymEnv(Base):
        symbolic = True

        def __init__(self, mpnum, explorer):
            self.mp = mpnum
            self.ex = explorer
            self.obligations = []        # (pc, kind, payload, label)
            self.choices = []
            self.inputs = []

        def tensor(self, name, shape, cplx=False, iso=None):
            kind = 'c' if cplx else 'f'
            o = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                o[i] = Sym(T.var('%s[%s]' % (name, ','.join(map(str, i))), not cplx), kind)
            a = A.wrap(o, kind)
            if iso == 'left':
                stubs.assume_isometry(stubs.nodes(a.reshape((-1, shape[-1]))), 'left-canonical input')
            elif iso == 'right':
                stubs.assume_isometry(stubs.dagger(stubs.nodes(a.reshape((shape[0], -1)))), 'right-canonical input')
            return a

        def scalar(self, name, cplx=False):
            return Sym(T.var(name, not cplx), 'c' if cplx else 'f')

        def positive(self, name, scale=False):
            v = T.var(name, True)
            if scale:
                T.mark_scale(v)
            if not T.CTX.aux.get(('nonneg', v.id)):
                T.CTX.aux[('nonneg', v.id)] = True
                T.hyp_bool(T.lt(T.ZERO, v), 'positive input', v)
            return Sym(v, 'f')

        def choose(self, name, options):
            options = list(options)
            k = self.ex.choose(len(options))
            self.choices.append(k)
            return options[k]

        def assume(self, cond):
            self.ex.assume(A.as_bool(cond))

        def unsupported(self, what):
            raise T.Unsupported(what)

        def integer(self, name, dim):
            v = T.ivar(name)
            if not T.CTX.aux.get(('range', v.id)):
                T.CTX.aux[('range', v.id)] = T.CTX.aux[('nonneg', v.id)] = True
                T.hyp_bool(T.and_(T.le(T.ZERO, v), T.le(v, T.const(int(dim) - 1))),
                           'integer input', v)
            return v

        def integers(self, name, dims, dtype=np.int64):
            """Integer array, entry i in range(dims[i])."""
            dims = np.asarray(dims)
            kind = A.kind_of_dtype(dtype)
            o = np.empty(dims.shape, dtype=object)
            for i in np.ndindex(*dims.shape):
                o[i] = Sym(self.integer('%s[%s]' % (name, ','.join(map(str, i))), dims[i]), kind)
            return A.rewrap_view(o, kind)

        def const(self, a):
            return as_symarray(np.asarray(a)) if np.ndim(a) else a

        def isnan(self, a):
            return np.isnan(as_symarray(a))

        def symbolic_integers(self):
            A.INTEGERS[0] = True

        def close(self):
            A.INTEGERS[0] = A.FORKMASK[0] = A.EAGER[0] = False
            Base.close(self)

        def outcome(self, p):
            k = self.choose('outcome', range(len(p)))
            self.suppose(p[k] > 0)
            return k

        def suppose(self, cond):
            """Assume without asking whether the path stays feasible."""
            n = A.as_bool(cond)
            if n is T.FALSE:
                self.assume(cond)
            if n is not T.TRUE and n not in self.ex.pc:
                self.ex.pc.append(n)

        def raw(self, a):
            return base(as_symarray(a))

        def conj(self, a):
            r = A._CONJ(base(as_symarray(a)))
            if not isinstance(r, np.ndarray):
                o = np.empty((), dtype=object)
                o[()] = r
                r = o
            return r

        def equal(self, actual, expected, what):
            sa, sb = np.shape(actual), np.shape(expected)
            if sa != sb:
                self.obligations.append((tuple(self.ex.pc), 'fail', None,
                                         '%s: shape %r instead of %r' % (what, sa, sb)))
                return
            a = base(as_symarray(actual))
            b = base(as_symarray(expected))
            pairs = []
            for x, y in zip(a.flat, b.flat):
                if not isinstance(x, Sym) or not isinstance(y, Sym):
                    for z in (x, y):
                        if not isinstance(z, (Sym, int, float, complex, np.number)):
                            raise T.Unsupported('non-numeric entry %r' % type(z))
                pairs.append((A.node_of(x), A.node_of(y)))
            self.obligations.append((tuple(self.ex.pc), 'eq', pairs, what))

        def same(self, a, b):
            """Are the entries the same terms (polynomials: the same values at
            a random point)?  Only used to find things, never to decide."""
            import random
            from . import decide
            if np.shape(a) != np.shape(b):
                return False
            a, b = base(as_symarray(a)), base(as_symarray(b))
            pairs = [(A.node_of(x), A.node_of(y)) for x, y in zip(a.flat, b.flat)]
            pairs = [p for p in pairs if p[0] is not p[1]]
            if not pairs:
                return True
            val = decide._modeval([n for p in pairs for n in p], random.Random(7))
            return val is None or all(val[x.id] == val[y.id] for x, y in pairs)

        def check(self, cond, what):
            if isinstance(cond, A.SymBool):
                self.obligations.append((tuple(self.ex.pc), 'bool', cond.node, what))
            elif isinstance(cond, (SymArray, Sym)):
                raise T.Unsupported('check() of a non-boolean')
            elif cond:
                self.obligations.append((tuple(self.ex.pc), 'bool', T.TRUE, what))
            else:
                self.obligations.append((tuple(self.ex.pc), 'fail', None, what))

        def ite(self, cond, a, b):
            if not isinstance(cond, A.SymBool):
                return a if cond else b
            return Sym(T.ite(cond.node, A.node_of(a), A.node_of(b)), 'f')

        def both(self, *conds):
            return A.SymBool(T.and_(*[A.as_bool(c) for c in conds]))

        def no(self, cond):
            return A.SymBool(T.not_(A.as_bool(cond)))

        def nonneg_fact(self, *factors):
            """Proof hint: the product of these terms is not negative; used
            to decide branches on the sign of equal terms."""
            from . import decide
            acc = T.ONE
            for f in factors:
                n = A.node_of(f)
                if not T.is_nonneg(n):
                    # the inverse of a term has the sign of the term
                    src = T.CTX.aux.get(('invsrc', n.id), n) if n.op == 'v' else n
                    if decide.direct([T.le(T.ZERO, src)], tuple(self.ex.pc), 10).verdict != 'holds':
                        return
                    T.CTX.aux[('nonneg', n.id)] = True
                acc = T.mul(acc, n)
            T.CTX.aux.setdefault('nonneg terms', []).append(acc)

        def root_fact(self, x):
            """Proof hint: x >= 0 is the value of some square root."""
            n = A.node_of(x)
            if T.is_nonneg(n):
                T.CTX.aux.setdefault('roots', []).append(n)

        def inverse_lemma(self, n, k):
            """Proof hint: 1/(n-k) - 1/n = k/(n (n-k)), shown by the solver
            for an arbitrary n first."""
            from . import decide
            n = A.node_of(n)
            x, i, j = [T.var('lemma!' + c, True) for c in 'xij']
            k = T.const(k)
            xk = T.sub(x, k)
            pc = [T.eq(T.mul(x, i), T.ONE), T.eq(T.mul(xk, j), T.ONE)]
            goal = T.eq(T.sub(j, i), T.mul(k, T.mul(i, j)))
            if decide.direct([goal], pc, 10).verdict == 'holds':
                a, b = T.inv(n), T.inv(T.sub(n, k))
                T.hyp_eq(T.mul(k, T.mul(a, b)), T.sub(b, a), 'inverse lemma', b)

        def fork_masks(self):
            A.FORKMASK[0] = True

        def eager(self):
            A.EAGER[0] = True

        def nonneg(self, x, what):
            n = A.node_of(x)
            if T.is_nonneg(n):
                self.obligations.append((tuple(self.ex.pc), 'bool', T.TRUE, what))
                return
            self.check(A.SymBool(T.le(T.ZERO, n)), what)

        def cut(self, *arrays):
            """Proof hint: name the entries (see decide._apply_cuts)."""
            cuts = {}
            for a in arrays:
                T.CTX.counter += 1
                c = T.CTX.counter
                arr = base(as_symarray(a))
                for i, x in np.ndenumerate(arr):
                    n = x.node
                    if n.op not in '+*' or n.id in cuts:
                        continue
                    v = T.var('cut!%d[%s]' % (c, ','.join(map(str, i))), n.real)
                    cuts[n.id] = (n, v)
                    if not n.real:
                        cuts[T.conj(n).id] = (T.conj(n), T.conj(v))
            if cuts:
                T.CTX.aux.setdefault('cuts', []).append(cuts)

        def svd_mark(self):
            return len(T.CTX.aux.setdefault('svdlog', []))

        def svd_values(self, mark, matrix):
            """Singular values introduced by the last decomposition since
            mark (concretely: of the given matrix)."""
            log = T.CTX.aux.setdefault('svdlog', [])
            if len(log) <= mark:
                raise T.Unsupported('no decomposition was recorded')
            return list(log[-1][0])

        def svd_factors(self, values):
            """(u, v) of the recorded decomposition with these singular
            values, cut to their number."""
            vals = list(base(as_symarray(values)))
            for s, u, v in reversed(T.CTX.aux.get('svdlog', [])):
                if len(s) >= len(vals) and all(x.node is y.node for x, y in zip(vals, s)):
                    return base(u)[:, :len(vals)], base(v)[:len(vals)]
            raise T.Unsupported('values do not come from a decomposition')

        def rng(self, name='rng'):
            return stubs.SymRandom(name)

    return SymEnv
