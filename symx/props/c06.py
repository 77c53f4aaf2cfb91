"""C06: regrouping of sites and bond legs."""
import itertools as it

import numpy as np

BOUNDS = ('1-6 sites, 0-4 legs per site (different per site), leg dimensions 1-3, ranks 1-3, all bonds, group sizes 1-3, '
          'all canonical-form claims of 3- and 4-site chains, sequences of two regrouping steps; '
          'single configurations with 8 sites, 6 legs per site, dimension 5, rank 4')
OUTSIDE = 'longer chains, larger dimensions, rounding; QR through its contract'

SH = {
    'one': ([(2, 3)], []),
    'two': ([(2,), (3,)], [2]),
    'two2': ([(2, 3), (2, 1)], [3]),
    'three': ([(2,), (3,), (2,)], [2, 2]),
    'mixed': ([(2, 1), (3,), (2, 2)], [2, 3]),
    'four': ([(2,), (1,), (3,), (2,)], [2, 2, 2]),
    'four2': ([(2,), (3,), (2, 1), (2,)], [2, 3, 2]),
    'four3': ([(2,), (2, 1), (), (3,)], [2, 3, 3]),
    'eight': ([(2,), (1,), (2,), (1,), (2,), (1,), (2,), (1,)], [2, 2, 1, 2, 2, 1, 2]),
    'five': ([(2,), (1, 2), (2,), (1,), (2,)], [2, 2, 2, 2]),
    'wide': ([(4,), (5,)], [4]),
    'legs': ([(2, 1, 2), (1, 2, 1, 2)], [3]),
    'six': ([(2,), (1,), (2,), (2,), (1,), (2,)], [2, 2, 1, 2, 2]),
}


def _legs(s):
    return sum((tuple(x) for x in s), ())


def group(env, which, g, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d = env.dense(a)
    b = a.group_sites(g)
    env.check(len(b) == len(s) // g, 'group_sites: length')
    env.check(env.shape_of(b) == tuple(_legs(s[i:i + g]) for i in range(0, len(s), g)), 'group_sites: shape')
    env.equal(env.dense(b), d, 'group_sites(%d)' % g)
    env.claims(b, 'group_sites')
    env.unchanged(a, sn, 'a')


def splits(env, shapes, ranks, g, cplx, cform):
    a = env.mpa('a', shapes, ranks, cplx, cform)
    sn = env.snapshot(a)
    d = env.dense(a)
    b = a.split_sites(g)
    new = []
    for s in shapes:
        n = len(s) // g
        new += [tuple(s[i:i + n]) for i in range(0, len(s), n)] if n else [()] * g
    env.check(env.shape_of(b) == tuple(new), 'split_sites: shape')
    env.equal(env.dense(b), d, 'split_sites(%d)' % g)
    env.claims(b, 'split_sites')
    c = b.group_sites(g)
    env.equal(env.dense(c), d, 'split then group')
    env.check(env.shape_of(c) == tuple(tuple(x) for x in shapes), 'split then group: shape')
    env.unchanged(a, sn, 'a')


def groupsplit(env, which, g, cplx):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    b = a.group_sites(g)
    c = b.split_sites(g)
    env.equal(env.dense(c), d, 'group then split')
    env.check(env.shape_of(c) == tuple(tuple(x) for x in s), 'group then split: shape')
    env.claims(c, 'group then split')


def grouperr(env):
    a = env.mpa('a', [(2,), (2,), (2,)], [2, 2])
    env.raises(ValueError, lambda: a.group_sites(2), 'length not divisible')
    b = env.mpa('b', [(2, 2), (2,)], [2])
    env.raises(AssertionError, lambda: b.split_sites(2), 'legs not divisible')


def vleg(env, which, pos, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    lts = [env.raw(t) for t in a.lt]
    d = env.dense(a)
    left = env.contract(lts[:pos + 1])[0]                # legs..., bond
    right = env.contract(lts[pos + 1:])[..., 0]          # bond, legs...
    b = a.vleg2leg(pos)
    env.check(env.shape_of(b) == tuple(tuple(x) + ((r[pos],) if k == pos else ()) if k != pos + 1 else (r[pos],) + tuple(x)
                                       for k, x in enumerate(s)), 'vleg2leg: shape')
    env.check(b.ranks[pos] == 1, 'vleg2leg: rank')
    env.equal(env.dense(b), env.outer(left, right), 'vleg2leg(%d)' % pos)
    env.claims(b, 'vleg2leg')
    c = b.leg2vleg(pos)
    env.equal(env.dense(c), d, 'leg2vleg(vleg2leg)')
    env.check(env.shape_of(c) == tuple(tuple(x) for x in s), 'leg2vleg: shape')
    env.claims(c, 'leg2vleg')
    env.unchanged(a, sn, 'a')


def legv(env, which, pos, dim, cplx, cform):
    """leg2vleg on an array with a rank-1 bond and matching legs, any claims."""
    s, r = SH[which]
    s, r = [tuple(x) for x in s], list(r)
    s[pos] = s[pos] + (dim,)
    s[pos + 1] = (dim,) + s[pos + 1]
    r[pos] = 1
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d = env.dense(a)
    n1 = sum(len(x) for x in s[:pos + 1])
    b = a.leg2vleg(pos)
    e = None
    for k in range(dim):
        sel = [slice(None)] * d.ndim
        sel[n1 - 1] = sel[n1] = k
        e = d[tuple(sel)] if e is None else e + d[tuple(sel)]
    env.equal(env.dense(b), e, 'leg2vleg(%d)' % pos)
    env.claims(b, 'leg2vleg')
    env.unchanged(a, sn, 'a')


def viaclaims(env, which, pos, cplx):
    """vleg2leg, canonicalize, leg2vleg: value kept and claims true."""
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx)
    d = env.dense(a)
    b = a.vleg2leg(pos)
    n = len(s)
    left, right = env.choose('target', [(l, x) for l in [None] + list(range(n)) for x in [None] + list(range(1, n + 1))
                                        if (l or 0) < (x if x is not None else n)])
    b.canonicalize(left=left, right=right)
    c = b.leg2vleg(pos)
    env.equal(env.dense(c), d, 'vleg2leg, canonicalize, leg2vleg')
    env.claims(c, 'vleg2leg, canonicalize(%r, %r), leg2vleg' % (left, right))


def split(env, which, pos, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    lts = [env.raw(t) for t in a.lt]
    if pos < 0:
        l, rr = a.split(pos)
        env.check(l is None, 'split before the chain')
        env.equal(env.dense(rr), env.dense(a), 'split before the chain')
    elif pos >= len(s):
        l, rr = a.split(pos)
        env.check(rr is None, 'split behind the chain')
        env.equal(env.dense(l), env.dense(a), 'split behind the chain')
    else:
        l, rr = a.split(pos)
        env.check(len(l) == pos + 1 and len(rr) == len(s) - pos - 1, 'split: lengths')
        env.equal(env.dense(l), env.contract(lts[:pos + 1])[0], 'split: left part')
        env.equal(env.dense(rr), env.contract(lts[pos + 1:])[..., 0], 'split: right part')
        env.claims(l, 'split: left part')
        env.claims(rr, 'split: right part')
        back = env.mp.chain((l, rr)).leg2vleg(pos)
        env.equal(env.dense(back), env.dense(a), 'split and join')
        env.claims(back, 'split and join')
    env.unchanged(a, sn, 'a')


def prune(env, shapes, ranks, singletons, cplx, cform):
    mp = env.mp
    a = env.mpa('a', shapes, ranks, cplx, cform)
    sn = env.snapshot(a)
    d = env.dense(a)
    b = mp.prune(a, singletons=singletons) if singletons is not None else mp.prune(a)
    keep = [s for s in shapes if len(s) > 0 and not (singletons and int(np.prod(s)) == 1)]
    exp = tuple(tuple(s) for s in keep) or ((),)
    env.check(env.shape_of(b) == exp, 'prune: shape')
    if env.shape_of(b) == exp:
        env.equal(env.dense(b), d.reshape(_legs(keep)), 'prune')
    env.claims(b, 'prune')
    env.unchanged(a, sn, 'a')


def pad(env, which, rank, force, cplx, cform):
    s, r = SH[which]
    a = env.mpa('a', s, r, cplx, cform)
    sn = env.snapshot(a)
    d = env.dense(a)
    b = a.pad_ranks(rank, force) if rank is not None else a.pad_ranks(force_rank=force)
    n = [int(np.prod(x)) for x in s]
    full = [min(int(np.prod(n[:k], dtype=object)), int(np.prod(n[k:], dtype=object))) for k in range(1, len(n))]
    tgt = rank if rank is not None else max(r)
    exp = tuple(max(x, tgt if force else min(f, tgt)) for x, f in zip(r, full))
    env.check(tuple(b.ranks) == exp, 'pad_ranks: ranks %r' % (exp,))
    env.equal(env.dense(b), d, 'pad_ranks')
    env.check(env.shape_of(b) == tuple(tuple(x) for x in s), 'pad_ranks: shape')
    env.claims(b, 'pad_ranks')
    env.unchanged(a, sn, 'a')


CF3 = [(0, 3), (1, 3), (2, 3), (0, 2), (0, 1), (1, 2)]
CF4 = [(0, 4), (1, 4), (2, 4), (3, 4), (0, 3), (0, 2), (0, 1), (1, 2), (2, 3), (1, 3)]


def configs(tier):
    big = tier != 'quick'
    for c in (False, True):
        for w, gs in [('one', [1]), ('two', [1, 2]), ('two2', [1, 2]), ('three', [1, 3]), ('mixed', [1, 3]), ('four', [1, 2, 4]), ('four2', [2, 4]),
                      ('four3', [2]), ('six', [1, 2, 3, 6])]:
            for g in gs:
                yield 'group', dict(which=w, g=g, cplx=c, cform=None)
        for w, g in [('two', 2), ('three', 3), ('four', 2), ('four', 4), ('six', 3), ('six', 2)]:
            yield 'groupsplit', dict(which=w, g=g, cplx=c)
        for shapes, ranks, g in [([(2, 3)], [], 2), ([(2, 3), (3, 2)], [2], 2), ([(2, 1, 2), (1, 2, 2)], [2], 3), ([(2, 2, 1, 3)], [], 2),
                                 ([(2, 2, 1, 3), (2, 1)], [2], 2), ([(2, 2), (1, 3), (2, 1)], [2, 3], 2), ([(2,), (3,)], [2], 1),
                                 ([(3, 1), (2, 2, 1, 1)], [3], 2)]:
            yield 'splits', dict(shapes=shapes, ranks=ranks, g=g, cplx=c, cform=None)
    for cf in [(0, 1), (1, 2)]:
        yield 'splits', dict(shapes=[(2, 3), (3, 2)], ranks=[2], g=2, cplx=True, cform=cf)
    for cf in CF4:
        yield 'group', dict(which='four', g=2, cplx=True, cform=cf)
        yield 'group', dict(which='four', g=1, cplx=True, cform=cf)
    for w, g in [('eight', 2), ('eight', 4), ('eight', 8), ('five', 5), ('five', 1), ('wide', 2), ('legs', 2)]:
        yield 'group', dict(which=w, g=g, cplx=True, cform=None)
    yield 'groupsplit', dict(which='eight', g=4, cplx=False)
    yield 'groupsplit', dict(which='wide', g=2, cplx=True)
    for shapes, ranks, g in [([(2, 1, 2, 1), (1, 2, 1, 2)], [2], 4), ([(2, 1), (1, 2), (2, 1), (1, 2)], [2, 2, 2], 2), ([(4, 5)], [], 2), ([(2, 1, 2, 1, 2)], [], 5),
                             ([(2, 1, 1, 2, 2, 1)], [], 3), ([(2, 1, 1, 2, 2, 1), (1, 2, 1)], [2], 3)]:
        yield 'splits', dict(shapes=shapes, ranks=ranks, g=g, cplx=False, cform=None)
    for pos in range(4):
        yield 'vleg', dict(which='five', pos=pos, cplx=True, cform=None)
        yield 'split', dict(which='five', pos=pos, cplx=True, cform=None)
        yield 'legv', dict(which='five', pos=pos, dim=2, cplx=False, cform=None)
    for w in ('wide', 'legs'):
        yield 'vleg', dict(which=w, pos=0, cplx=True, cform=None)
        yield 'split', dict(which=w, pos=0, cplx=True, cform=None)
        yield 'legv', dict(which=w, pos=0, dim=4, cplx=True, cform=None)
    for w in ('eight', 'five', 'wide', 'legs'):
        for rank, force in ((None, False), (5, True), (2, True), (6, False), (7, True)):
            yield 'pad', dict(which=w, rank=rank, force=force, cplx=False, cform=None)
    for shapes, ranks in [([(), (), (2,), (), (), (), (2,), ()], [2, 2, 2, 1, 2, 2, 2]), ([(1,), (2,), (1,), (1, 1), (1,), (2,), (1,)], [2] * 6), ([()] * 5, [2, 3, 2, 2])]:
        for sg in (None, True):
            yield 'prune', dict(shapes=shapes, ranks=ranks, singletons=sg, cplx=True, cform=None)
    yield 'grouperr', dict()
    for w in ('two', 'two2', 'three', 'mixed', 'four', 'four3'):
        n = len(SH[w][0])
        cfs = {2: [(0, 2), (0, 1), (1, 2)], 3: CF3, 4: CF4}[n] if w in ('three', 'four', 'two') else [None]
        for pos in range(n - 1):
            for cf in cfs:
                yield 'vleg', dict(which=w, pos=pos, cplx=True, cform=cf)
                yield 'split', dict(which=w, pos=pos, cplx=True, cform=cf)
            yield 'vleg', dict(which=w, pos=pos, cplx=False, cform=None)
        yield 'split', dict(which=w, pos=-1, cplx=False, cform=None)
        yield 'split', dict(which=w, pos=n, cplx=False, cform=None)
    for pos in range(2):
        for cf in CF3:
            yield 'legv', dict(which='three', pos=pos, dim=2, cplx=True, cform=cf)
    for pos in range(3):
        for cf in CF4:
            yield 'legv', dict(which='four', pos=pos, dim=2, cplx=False, cform=cf)
    yield 'legv', dict(which='two', pos=0, dim=3, cplx=True, cform=None)
    for pos in range(2):
        yield 'viaclaims', dict(which='three', pos=pos, cplx=False)
    yield 'viaclaims', dict(which='two', pos=0, cplx=True)
    for shapes, ranks in [([()], []), ([(2,)], []), ([(), ()], [2]), ([(2,), ()], [2]), ([(), (2,)], [2]), ([(), (2,), ()], [2, 3]),
                          ([(2,), (), (3,)], [2, 3]), ([(2, 3), (), (), (2,)], [2, 3, 2]), ([(), (), (2,), (1,)], [3, 2, 2]),
                          ([(1,), (2,), (1, 1)], [2, 2]), ([(1,), (1, 1), (1,)], [2, 3]), ([(1, 2), (1,), (), (2,)], [2, 3, 2]),
                          ([(2,), (1,), (1,)], [2, 2]), ([(1, 1)], []), ([(), (1,), (2,), (2, 1), ()], [2, 2, 2, 2])]:
        for sg in (None, False, True):
            yield 'prune', dict(shapes=shapes, ranks=ranks, singletons=sg, cplx=True, cform=None)
    for cf in CF3:
        for sg in (False, True):
            yield 'prune', dict(shapes=[(2,), (1, 2), (2,)], ranks=[2, 2], singletons=sg, cplx=True, cform=cf)
    yield 'prune', dict(shapes=[(2,), (1,), (2,)], ranks=[2, 2], singletons=True, cplx=True, cform=(2, 3))
    yield 'prune', dict(shapes=[(2,), (1,), (2,)], ranks=[2, 2], singletons=True, cplx=True, cform=(0, 1))
    for w in ('two', 'two2', 'three', 'mixed', 'four', 'four2', 'six'):
        for rank in (None, 1, 3, 4):
            for force in (False, True):
                yield 'pad', dict(which=w, rank=rank, force=force, cplx=True, cform=None)
    for cf in CF3:
        yield 'pad', dict(which='three', rank=3, force=True, cplx=True, cform=cf)
        yield 'pad', dict(which='three', rank=3, force=False, cplx=True, cform=cf)
