"""C03: local contractions, partial contractions, outer products, chain, inject."""
import numpy as np

BOUNDS = ('1-4 sites, 1-3 legs per site (different per site where the operation permits), leg dimensions 1-3, ranks 1-3, '
          'all leg pairs incl. negative and two-leg contractions, all offsets, 1-3 chained arrays, 1-4 injection positions; '
          'single configurations with up to 7 sites, 4 legs per site, dimension 5, rank 5')
OUTSIDE = 'longer chains, larger dimensions, rounding'


def _pos(shapes):
    """offset of the first leg of each site in the dense array."""
    out, k = [], 0
    for s in shapes:
        out.append(k)
        k += len(s)
    return out, k


def _norm(ax, n):
    return ax if ax >= 0 else ax + n


def _oracle(env, da, sa, db, sb, axes, where=None):
    """Dense local contraction. where: per site (ka, kb) pairing (None: absent)."""
    pa, na = _pos(sa)
    pb, nb = _pos(sb)
    if not isinstance(axes[0], (tuple, list)):
        axes = ((axes[0],), (axes[1],))
    where = where or [(k, k) for k in range(len(sa))]
    ca, cb, order = [], [], []
    for ka, kb in where:
        la = len(sa[ka]) if ka is not None else 0
        lb = len(sb[kb]) if kb is not None else 0
        xa, xb = [], []
        if ka is not None and kb is not None:
            xa = [_norm(x, la) for x in axes[0]]
            xb = [_norm(x, lb) for x in axes[1]]
            ca += [pa[ka] + x for x in xa]
            cb += [pb[kb] + x for x in xb]
        if ka is not None:
            order += [('a', pa[ka] + x) for x in range(la) if x not in xa]
        if kb is not None:
            order += [('b', pb[kb] + x) for x in range(lb) if x not in xb]
    res = env.tdot(da, db, ca, cb)
    have = [('a', x) for x in range(na) if x not in ca] + [('b', x) for x in range(nb) if x not in cb]
    return res.transpose([have.index(o) for o in order])


def dot(env, sa, ra, sb, rb, axes, ca, cb):
    mp = env.mp
    a = env.mpa('a', sa, ra, ca)
    b = env.mpa('b', sb, rb, cb)
    na, nb = env.snapshot(a), env.snapshot(b)
    e = _oracle(env, env.dense(a), sa, env.dense(b), sb, axes)
    c = mp.dot(a, b, axes=axes)
    env.equal(env.dense(c), e, 'dot %r' % (axes,))
    env.check(tuple(c.ranks) == tuple(x * y for x, y in zip(ra, rb)), 'ranks of the product')
    c = mp.dot(a, b, axes, astype=mp.MPArray)
    env.equal(env.dense(c), e, 'dot %r' % (axes,))
    if axes == (-1, 0):
        env.equal(env.dense(mp.dot(a, b)), e, 'dot with default axes')
    env.unchanged(a, na, 'a')
    env.unchanged(b, nb, 'b')


def partialdot(env, sa, ra, sb, rb, start, axes, ca, cb):
    mp = env.mp
    a = env.mpa('a', sa, ra, ca)
    b = env.mpa('b', sb, rb, cb)
    na, nb = env.snapshot(a), env.snapshot(b)
    if len(sa) < len(sb):
        where = [(k - start if 0 <= k - start < len(sa) else None, k) for k in range(len(sb))]
    else:
        where = [(k, k - start if 0 <= k - start < len(sb) else None) for k in range(len(sa))]
    e = _oracle(env, env.dense(a), sa, env.dense(b), sb, axes, where)
    c = mp.partialdot(a, b, start_at=start, axes=axes)
    env.check(len(c) == max(len(sa), len(sb)), 'length')
    env.equal(env.dense(c), e, 'partialdot %r at %d' % (axes, start))
    if axes == (-1, 0):
        env.equal(env.dense(mp.partialdot(a, b, start)), e, 'partialdot with default axes')
    env.unchanged(a, na, 'a')
    env.unchanged(b, nb, 'b')


def localouter(env, sa, ra, sb, rb, ca, cb):
    mp = env.mp
    a = env.mpa('a', sa, ra, ca)
    b = env.mpa('b', sb, rb, cb)
    e = _oracle(env, env.dense(a), sa, env.dense(b), sb, ((), ()))
    c = mp.localouter(a, b)
    env.equal(env.dense(c), e, 'localouter')
    env.check(env.shape_of(c) == tuple(tuple(x) + tuple(y) for x, y in zip(sa, sb)), 'shape')


def chain(env, parts, cs, how):
    mp = env.mp
    ms = [env.mpa('a%d_' % k, s, r, c) for k, ((s, r), c) in enumerate(zip(parts, cs))]
    sn = [env.snapshot(m) for m in ms]
    e = env.dense(ms[0])
    for m in ms[1:]:
        e = env.outer(e, env.dense(m))
    c = mp.chain(iter(ms) if how == 'iter' else ms)
    env.equal(env.dense(c), e, 'chain')
    env.check(env.shape_of(c) == sum((env.shape_of(m) for m in ms), ()), 'shape')
    for m, s in zip(ms, sn):
        env.unchanged(m, s, 'chained array')
    env.raises(ValueError, lambda: mp.chain([]), 'empty chain')


def _inject_oracle(env, m, ins):
    """ins: list of (pos, [tensors]) ; dense result."""
    d = env.dense(m)
    shapes = env.shape_of(m)
    off, n = _pos(shapes)
    off = off + [n]
    order, extra = [], n
    res = d
    k = 0
    for site in range(len(shapes) + 1):
        for pos, tens in ins:
            if pos == site:
                for t in tens:
                    t = env.raw(t)
                    res = env.outer(res, t)
                    order += list(range(extra, extra + t.ndim))
                    extra += t.ndim
        if site < len(shapes):
            order += list(range(off[site], off[site + 1]))
    return res.transpose(order)


def inject(env, shapes, ranks, spec, cplx, multi):
    """spec: list of (pos, num or None, tensor shapes or None)."""
    mp = env.mp
    m = env.mpa('a', shapes, ranks, cplx)
    sn = env.snapshot(m)
    pos, num, ten, ins = [], [], [], []
    for k, (p, n, ts) in enumerate(spec):
        pos.append(p)
        num.append(n)
        if ts is None:
            ten.append(None)
            ins.append((p, [np.eye(shapes[p if p < len(shapes) else p - 1][0])] * n))
        elif n is None:
            t = [env.tensor('t%d_%d' % (k, j), s, cplx) for j, s in enumerate(ts)]
            ten.append(t)
            ins.append((p, t))
        else:
            t = env.tensor('t%d' % k, ts, cplx)
            ten.append(t)
            ins.append((p, [t] * n))
    e = _inject_oracle(env, m, ins)
    if multi:
        kw = dict(pos=pos)
        if any(n is not None for n in num):
            kw['num'] = num
        if any(t is not None for t in ten):
            kw['inject_ten'] = ten
        r = mp.inject(m, **kw)
    else:
        r = mp.inject(m, pos[0], num[0], ten[0])
    env.check(len(r) == len(shapes) + sum(len(t) for _, t in ins), 'length after injection')
    env.equal(env.dense(r), e, 'inject %r' % (spec,))
    env.unchanged(m, sn, 'a')


def configs(tier):
    big = tier != 'quick'
    CC = [(True, True), (False, True), (True, False)]
    # -- dot
    D = []
    D += [([(2, 3)], [], [(3, 2)], [], (-1, 0)), ([(3,)], [], [(3, 2)], [], (0, 0)),
          ([(2, 3), (3, 2)], [2], [(3, 2), (2, 1)], [3], (-1, 0)),
          ([(2, 3), (3, 2)], [2], [(2, 2), (3, 1)], [3], (0, 0)),
          ([(2, 3), (1, 2)], [2], [(2, 3), (3, 2)], [3], (1, 1)),
          ([(2, 3), (1, 2)], [2], [(3, 2), (2, 1)], [1], (0, 1)),
          ([(2, 3), (1, 2)], [2], [(2, 2, 3), (2, 1, 2)], [2], (-1, -1)),
          ([(2, 3), (1, 2)], [2], [(2, 2, 3), (2, 1, 2)], [2], (-2, -2)),
          ([(2, 3), (1, 2)], [2], [(2, 2, 3), (2, 1, 2)], [2], (-2, 1)),
          ([(2, 3), (1, 2)], [2], [(2, 2, 3), (2, 1, 2)], [2], (1, 2)),
          ([(2, 3, 2)], [], [(3, 2, 2)], [], ((1, 2), (0, 1))),
          ([(2, 3, 2)], [], [(3, 2, 2)], [], ((1, 0), (0, 2))),
          ([(2, 3), (3, 1)], [2], [(3, 2), (1, 3)], [2], ((0, 1), (1, 0))),
          ([(2, 3), (3, 1)], [2], [(2, 3), (3, 1)], [2], ((-2, -1), (0, 1))),
          ([(2, 3), (3, 1)], [2], [(3, 2, 2), (1, 3, 3)], [2], ((0, 1), (-1, 0))),
          # different leg counts per site: last leg with first leg
          ([(2, 3), (3,), (1, 2, 2)], [2, 2], [(3, 2), (3, 2), (2,)], [2, 1], (-1, 0)),
          ([(2,), (2, 3), (2,)], [2, 3], [(2,), (2,), (2, 3)], [3, 2], (0, 0)),
          ([(3,), (2, 2), (2,)], [2, 1], [(2, 3), (2,), (3, 2)], [1, 2], (-1, -1)),
          ([(3,), (2,), (2,), (1,)], [2, 1, 3], [(3,), (2,), (2,), (1,)], [1, 3, 2], (0, 0)),
          ([(1, 2), (2, 1), (2, 2)], [1, 3], [(2, 1), (1, 3), (2, 1)], [3, 1], (1, 0))]
    for k, (sa, ra, sb, rb, axes) in enumerate(D):
        for ca, cb in (CC if len(sa) < 3 else CC[:1] + CC[1 + k % 2:2 + k % 2]):
            yield 'dot', dict(sa=sa, ra=ra, sb=sb, rb=rb, axes=axes, ca=ca, cb=cb)
    # -- partialdot: short operand left or right, every offset
    long_, lr = [(2, 3), (3, 2), (2, 2)], [2, 3]
    for start in range(3):
        s = long_[start]
        yield 'partialdot', dict(sa=long_, ra=lr, sb=[(s[1], 2)], rb=[], start=start, axes=(-1, 0), ca=True, cb=False)
        yield 'partialdot', dict(sa=long_, ra=lr, sb=[(3, s[0])], rb=[], start=start, axes=(0, 1), ca=True, cb=False)
        yield 'partialdot', dict(sa=[(1, s[0])], ra=[], sb=long_, rb=lr, start=start, axes=(-1, 0), ca=False, cb=True)
        yield 'partialdot', dict(sa=[(s[0],)], ra=[], sb=long_, rb=lr, start=start, axes=(0, 0), ca=True, cb=True)
        yield 'partialdot', dict(sa=[tuple(reversed(s))], ra=[], sb=long_, rb=lr, start=start, axes=((0, 1), (1, 0)), ca=True, cb=True)
        yield 'partialdot', dict(sa=[tuple(reversed(s))], ra=[], sb=long_, rb=lr, start=start, axes=((-2, -1), (-1, 0)), ca=True, cb=False)
        yield 'partialdot', dict(sa=long_, ra=lr, sb=[(2,) + s], rb=[], start=start, axes=((-2, -1), (-2, -1)), ca=False, cb=True)
    for start in range(2):
        s = long_[start:start + 2]
        yield 'partialdot', dict(sa=long_, ra=lr, sb=[(x[1], 2) for x in s], rb=[2], start=start, axes=(-1, 0), ca=True, cb=True)
        yield 'partialdot', dict(sa=long_, ra=lr, sb=[(2, x[0]) for x in s], rb=[2], start=start, axes=(0, -1), ca=False, cb=True)
        yield 'partialdot', dict(sa=[(2, x[0]) for x in s], ra=[3], sb=long_, rb=lr, start=start, axes=(1, 0), ca=True, cb=True)
        yield 'partialdot', dict(sa=[x for x in s], ra=[2], sb=long_, rb=lr, start=start, axes=((0, 1), (0, 1)), ca=True, cb=True)
    yield 'partialdot', dict(sa=[(2, 3), (3, 2)], ra=[2], sb=[(3, 2), (2, 1)], rb=[3], start=0, axes=(-1, 0), ca=True, cb=True)
    yield 'partialdot', dict(sa=[(2, 3), (1,), (2,)], ra=[2, 2], sb=[(1, 2)], rb=[], start=1, axes=(-1, 0), ca=True, cb=True)
    yield 'partialdot', dict(sa=[(2,)], ra=[], sb=[(3,), (1, 2), (2, 3)], rb=[2, 3], start=2, axes=(0, 0), ca=True, cb=True)
    yield 'partialdot', dict(sa=[(2,), (2, 2), (3,), (2,)], ra=[2, 2, 2], sb=[(2, 3), (3,)], rb=[2], start=1, axes=(-1, 0), ca=True, cb=True)
    # -- localouter
    for sa, ra, sb, rb in [([(2,)], [], [(3, 2)], []), ([(2,), (3,)], [2], [(2, 2), ()], [3]),
                           ([(2, 3), (), (2,)], [2, 3], [(2,), (2,), (1, 2)], [3, 2]), ([(1,), (2,)], [3], [(2,), (1,)], [2])]:
        for ca, cb in CC:
            yield 'localouter', dict(sa=sa, ra=ra, sb=sb, rb=rb, ca=ca, cb=cb)
    # -- chain
    P = [([(2,), (3,)], [2]), ([(2, 2)], []), ([(3,), (), (1, 2)], [3, 2]), ([()], [])]
    for idx in [(0,), (0, 1), (1, 0), (0, 3, 2), (2, 2), (1, 1, 1), (2, 0, 1)]:
        for cs in ([True] * len(idx), [k == len(idx) - 1 for k in range(len(idx))]):
            for how in ('list', 'iter'):
                yield 'chain', dict(parts=[P[i] for i in idx], cs=cs, how=how)
    # -- inject
    S = ([(2, 3), (3,), (2, 2)], [2, 3])
    for c in (False, True):
        for p in range(4):
            yield 'inject', dict(shapes=S[0], ranks=S[1], spec=[(p, 1, None)], cplx=c, multi=False)
            yield 'inject', dict(shapes=S[0], ranks=S[1], spec=[(p, 2, (2,))], cplx=c, multi=False)
            yield 'inject', dict(shapes=S[0], ranks=S[1], spec=[(p, None, [(2,), (1, 2)])], cplx=c, multi=False)
            yield 'inject', dict(shapes=S[0], ranks=S[1], spec=[(p, 1, (2, 3))], cplx=c, multi=True)
        for spec in ([(0, 1, (2,)), (1, 2, (3,))], [(1, 1, None), (2, 2, None)], [(1, None, [(2,), ()]), (3, 1, (2, 2))],
                     [(0, 1, None), (2, None, [(2,)]), (3, 2, None)], [(1, None, [(2,)]), (2, None, [(3,), (2,)])],
                     [(0, 2, None), (3, 1, (3,))]):
            yield 'inject', dict(shapes=S[0], ranks=S[1], spec=spec, cplx=c, multi=True)
        yield 'inject', dict(shapes=[(2, 2)], ranks=[], spec=[(0, 2, None)], cplx=c, multi=False)
        yield 'inject', dict(shapes=[(2, 2)], ranks=[], spec=[(1, 2, None)], cplx=c, multi=False)
        yield 'inject', dict(shapes=[(3,), (2,)], ranks=[3], spec=[(1, 0, None)], cplx=c, multi=False)
    # long chains, large dimensions and ranks, many legs
    for sa, ra, sb, rb, axes in [
            ([(1, 2), (2, 1), (1, 2), (2, 1), (1, 2)], [2, 1, 2, 1], [(2, 1), (1, 2), (2, 1), (1, 1), (2, 1)], [1, 2, 1, 2], (-1, 0)),
            ([(2,), (1,), (2,), (1,), (2,), (1,), (2,)], [2, 1, 2, 2, 1, 2], [(2,), (1,), (2,), (1,), (2,), (1,), (2,)], [1, 2, 1, 2, 1, 2], (0, 0)),
            ([(4, 5)], [], [(5, 3)], [], (-1, 0)), ([(2, 2), (2, 1)], [5], [(2, 1), (1, 2)], [4], (-1, 0)),
            ([(2, 1, 3, 2)], [], [(2, 3, 1, 2)], [], ((3, 2), (0, 1))), ([(2, 1, 3, 2), (1, 2, 1, 1)], [2], [(1, 2, 2), (2, 1, 1)], [2], ((1, 0), (0, 2))),
            ([(1, 2, 3, 2)], [], [(3, 1, 2, 2)], [], ((2, 0, 3), (0, 1, 3)))]:
        yield 'dot', dict(sa=sa, ra=ra, sb=sb, rb=rb, axes=axes, ca=True, cb=False)
    for start in range(4):
        yield 'partialdot', dict(sa=[(1, 2), (2, 2), (1, 2), (2, 2), (1, 2)], ra=[2, 1, 2, 2], sb=[(2, 1), (2, 2)], rb=[2], start=start, axes=(-1, 0), ca=True, cb=False)
        yield 'partialdot', dict(sa=[(1, 2), (2, 2)], ra=[2], sb=[(2, 1), (2, 1), (2, 1), (2, 2), (2, 1)], rb=[2, 1, 2, 2], start=start, axes=(-1, 0), ca=False, cb=True)
    for idx in [(0, 1, 2, 3, 0), (2, 1, 1, 1, 0, 1), (1, 3, 3, 1)]:
        yield 'chain', dict(parts=[P[i] for i in idx], cs=[k % 2 == 0 for k in range(len(idx))], how='list')
    for spec in ([(1, 3, None)], [(0, None, [(2,), (1, 1), (2,)])], [(3, 4, (1,))], [(0, 1, (1,)), (1, 1, (1,)), (2, 1, (1,)), (4, 2, (1,))]):
        yield 'inject', dict(shapes=[(2,), (1, 2), (2,), (1,)], ranks=[2, 2, 2], spec=spec, cplx=True, multi=len(spec) > 1)
    for s in ([(2,), (3, 2)], [(3,), (2,)], [(2, 3)], [(1,), (2,), (2, 3, 1)]):
        for p in range(len(s) + 1):
            yield 'inject', dict(shapes=s, ranks=[2] * (len(s) - 1), spec=[(p, 1, None)], cplx=True, multi=p % 2 == 1)
    yield 'localouter', dict(sa=[(2,), (1,), (2,), (1,), (2,)], ra=[2, 1, 2, 1], sb=[(1,), (2,), (1,), (2,), (1,)], rb=[1, 2, 1, 2], ca=True, cb=False)
    yield 'localouter', dict(sa=[(4, 2), (2,)], ra=[4], sb=[(2,), (1, 5)], rb=[3], ca=False, cb=True)
    if big:
        for sa, ra, sb, rb, axes in [
                ([(3, 2), (2, 3), (3, 2)], [3, 3], [(2, 3), (3, 2), (2, 2)], [3, 3], (-1, 0)),
                ([(2, 2)] * 4, [2, 3, 2], [(2, 2)] * 4, [3, 2, 3], (-1, 0)),
                ([(2, 2, 2)] * 2, [3], [(2, 2, 2)] * 2, [3], ((0, 2), (2, 1))),
                ([(2,)] * 5, [2, 3, 3, 2], [(2,)] * 5, [3, 2, 3, 1], (0, 0))]:
            for ca, cb in CC:
                yield 'dot', dict(sa=sa, ra=ra, sb=sb, rb=rb, axes=axes, ca=ca, cb=cb)
