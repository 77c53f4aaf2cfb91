"""C22: local sums, embeddings and windows."""
import numpy as np

BOUNDS = {'chain': '1..6 sites', 'terms': '1..6', 'width': '1..4', 'offsets': 'regular and irregular windows',
          'ranks': '1..2 (4), different per term', 'types': 'real and complex in any order',
          'embedding': 'identity and given tensors with 0..3 legs',
          'window enumeration': 'every length, width and offset up to 7',
          'rank helper': '1..7 sites, dimensions 1..5, also products beyond 2**63'}
OUTSIDE = 'longer chains, larger dimensions and ranks; rounding'


def _dense_term(env, m, emb, start, length):
    """Padded dense array of one term."""
    lts = [env.raw(t) for t in m.lt]
    e = env.raw(emb)
    n = len(lts)
    acc = np.ones(())
    for _ in range(start):
        acc = env.outer(acc, e)
    acc = env.outer(acc, env.contract(lts)[0, ..., 0])
    for _ in range(length - start - n):
        acc = env.outer(acc, e)
    return acc


def _emb(env, legs, kind, cplx=True):
    if kind == 'eye':
        return None, np.eye(legs[0])
    e = env.tensor('e', legs, cplx)
    return e, e


def _terms(env, widths, legs, ranks, cplx):
    out = []
    for k, w in enumerate(widths):
        r = ranks[k % len(ranks)]
        c = cplx[k % len(cplx)]
        out.append(env.mpa('t%d' % k, [legs] * w, [r] * (w - 1), c))
    return out


def _pass(form, ms):
    return {'list': list(ms), 'tuple': tuple(ms), 'iter': iter(list(ms))}[form]


def regular(env, num, width, legs, ranks, cplx, kind, form='list', given=False):
    """Windows with offset one: the short construction."""
    ms = _terms(env, [width] * num, legs, ranks, cplx)
    snaps = [env.snapshot(m) for m in ms]
    arg, emb = _emb(env, legs, kind)
    length = num + width - 1
    kw = {}
    if given:
        kw = dict(length=length, slices=list(env.mp.regular_slices(length, width, 1)))
    h = env.mp.local_sum(_pass(form, ms), arg, **kw) if kind != 'eye' else env.mp.local_sum(_pass(form, ms), **kw)
    env.check(env.shape_of(h) == (tuple(legs),) * length, 'shape')
    env.claims(h, 'local_sum')
    want = 0
    for k, m in enumerate(ms):
        want = want + _dense_term(env, m, emb, k, length)
    env.equal(env.dense(h), want, 'sum of the padded terms')
    if num > 1 and width > 1 and len(ranks) == 1:
        env.check(max(h.ranks) <= (width - 1) * ranks[0] + 2, 'rank of the short construction')
    for m, s in zip(ms, snaps):
        env.unchanged(m, s, 'term')


def windows(env, length, slices, legs, ranks, cplx, kind, form='list'):
    """Arbitrary windows."""
    ms = _terms(env, [b - a for a, b in slices], legs, ranks, cplx)
    snaps = [env.snapshot(m) for m in ms]
    arg, emb = _emb(env, legs, kind)
    sl = _pass(form, [slice(a, b) for a, b in slices])
    h = env.mp.local_sum(_pass(form, ms), embed_tensor=arg, length=length, slices=sl)
    env.check(env.shape_of(h) == (tuple(legs),) * length, 'shape')
    env.claims(h, 'local_sum')
    want = 0
    for (a, b), m in zip(slices, ms):
        want = want + _dense_term(env, m, emb, a, length)
    env.equal(env.dense(h), want, 'sum of the padded terms')
    for m, s in zip(ms, snaps):
        env.unchanged(m, s, 'term')


def embed(env, length, sl, legs, rank, cplx, kind):
    a, b, c = (slice(*sl)).indices(length)
    m = _terms(env, [b - a], legs, [rank], [cplx])[0]
    snap = env.snapshot(m)
    arg, emb = _emb(env, legs, kind)
    e = env.mp.embed_slice(length, slice(*sl), m, arg) if arg is not None else env.mp.embed_slice(length, slice(*sl), m)
    env.check(env.shape_of(e) == (tuple(legs),) * length, 'shape')
    env.claims(e, 'embed_slice')
    env.equal(env.dense(e), _dense_term(env, m, emb, a, length), 'padded term')
    env.unchanged(m, snap, 'term')


def refuse(env, what):
    mp = env.mp
    if what == 'legs':
        m = env.mpa('t', [(2,)], [], False)
        env.raises(AssertionError, lambda: mp.embed_slice(2, slice(0, 1), m), 'one leg without embedding tensor')
    elif what == 'square':
        m = env.mpa('t', [(2, 3)], [], False)
        env.raises(AssertionError, lambda: mp.embed_slice(2, slice(0, 1), m), 'non-square legs without embedding tensor')
    elif what == 'length':
        m = env.mpa('t', [(2, 2)] * 2, [1], False)
        env.raises(AssertionError, lambda: mp.embed_slice(4, slice(0, 3), m), 'window and term differ in length')
    elif what == 'width':
        a = env.mpa('t', [(2, 2)] * 2, [1], False)
        b = env.mpa('u', [(2, 2)], [], False)
        env.raises(AssertionError, lambda: mp.local_sum([a, b]), 'terms of different widths')
    elif what == 'step':
        m = env.mpa('t', [(2, 2)], [], False)
        env.raises(AssertionError, lambda: mp.embed_slice(3, slice(0, 2, 2), m), 'window with a step')


def slices(env, top):
    """All lengths, widths and offsets up to `top` (solver-chosen)."""
    length = env.choose('length', range(1, top + 1))
    width = env.choose('width', range(1, length + 1))
    offset = env.choose('offset', range(1, top + 1))
    f = lambda: list(env.mp.regular_slices(length, width, offset))
    if (length - width) % offset:
        env.raises(AssertionError, f, 'windows do not reach the end')
        return
    got = [(s.start, s.stop, s.step) for s in f()]
    want = [(a, a + width, None) for a in range(0, length - width + 1, offset)]
    env.check(got == want, 'regular windows')
    env.check(not got or got[-1][1] == length, 'last window at the end')


def ranks(env, dims):
    got = env.mp.full_rank(dims)
    flat = [int(np.prod([int(x) for x in d], dtype=object)) if isinstance(d, (tuple, list)) else int(d) for d in dims]
    want = []
    for k in range(1, len(flat)):
        l = r = 1
        for x in flat[:k]:
            l *= x
        for x in flat[k:]:
            r *= x
        want.append(min(l, r))
    env.check(list(got) == want, 'full ranks')


def configs(tier):
    big = tier != 'quick'
    legs2 = (2, 2)
    for num in (1, 2, 3) + ((4,) if big else ()):
        for width in (1, 2, 3):
            if num + width - 1 > (5 if big else 4):
                continue
            for rk in ([1], [2], [2, 1], [1, 2, 2]):
                if width == 1 and rk != [1]:
                    continue
                for cx in ((False,), (True,), (False, True), (True, False)):
                    yield 'regular', dict(num=num, width=width, legs=legs2, ranks=rk, cplx=cx, kind='eye')
                for legs in ((2,), (2, 3), (1, 2, 1), ()):
                    if legs == () and width == 1 and num == 1:
                        continue
                    yield 'regular', dict(num=num, width=width, legs=legs, ranks=rk, cplx=(False, True), kind='given')
            for form in ('list', 'tuple', 'iter'):
                for given in (False, True):
                    yield 'regular', dict(num=num, width=width, legs=legs2, ranks=[1], cplx=(True,), kind='eye', form=form, given=given)
                    yield 'regular', dict(num=num, width=width, legs=(2,), ranks=[1], cplx=(True,), kind='given', form=form, given=given)
    for num, width, rk in ((4, 1, [1]), (5, 1, [1]), (4, 2, [2]), (5, 2, [1, 2]), (2, 4, [1]), (3, 3, [2, 1]), (6, 1, [1])):
        yield 'regular', dict(num=num, width=width, legs=legs2 if num + width < 7 else (2,), ranks=rk, cplx=(False, True), kind='eye' if num + width < 7 else 'given')
        yield 'regular', dict(num=num, width=width, legs=(2,), ranks=rk, cplx=(True, False), kind='given')
    for num, width, legs in ((2, 2, (4, 4)), (3, 1, (5, 5)), (2, 1, (4, 4))):
        yield 'regular', dict(num=num, width=width, legs=legs, ranks=[2 if width > 1 else 1], cplx=(True,), kind='eye')
    yield 'regular', dict(num=2, width=2, legs=legs2, ranks=[4, 3], cplx=(True,), kind='eye')
    W = [(5, [(0, 2), (3, 5)]), (5, [(1, 2), (4, 5), (0, 1)]), (5, [(0, 4), (1, 3)]), (2, [(0, 1)]), (2, [(1, 2)]), (3, [(0, 2), (1, 3)]), (3, [(1, 3), (0, 2)]), (3, [(0, 1), (2, 3)]),
         (4, [(0, 2), (2, 4)]), (3, [(0, 1), (1, 3)]), (3, [(0, 3), (1, 2)]), (3, [(1, 2), (1, 2)]),
         (4, [(0, 2), (1, 3), (2, 4)]), (4, [(0, 2), (1, 3)]), (3, [(0, 2), (1, 3), (0, 2)]), (4, [(0, 1), (3, 4)]),
         (3, [(1, 2), (2, 3)]), (4, [(0, 2), (1, 3), (2, 4), (0, 2)])]
    for length, sl in W:
        for cx in ((False,), (True,), (False, True), (True, False)):
            for rk in ([1], [2], [1, 2]):
                yield 'windows', dict(length=length, slices=sl, legs=legs2, ranks=rk, cplx=cx, kind='eye')
        for legs in ((2,), (1, 2)):
            yield 'windows', dict(length=length, slices=sl, legs=legs, ranks=[2], cplx=(True,), kind='given')
        for form in ('tuple', 'iter'):
            yield 'windows', dict(length=length, slices=sl, legs=legs2, ranks=[1], cplx=(False,), kind='eye', form=form)
    for length, sl in ((1, (0, 1)), (2, (0, 1)), (2, (1, 2)), (3, (1, 3)), (3, (0, 3)), (4, (1, 3)), (3, (None, 2)),
                       (3, (1, None)), (4, (-2, None)), (4, (-3, -1)), (3, (None, None)), (3, (1, 9)), (4, (1, 3, 1))):
        for legs, kind in (((2, 2), 'eye'), ((3, 3), 'eye'), ((2, 2), 'given'), ((2,), 'given'), ((), 'given'), ((1, 2, 2), 'given')):
            for c in (False, True):
                if int(np.prod(legs)) ** length > 300 and not big:
                    continue
                yield 'embed', dict(length=length, sl=sl, legs=legs, rank=2, cplx=c, kind=kind)
    for what in ('legs', 'square', 'length', 'width', 'step'):
        yield 'refuse', dict(what=what)
    yield 'slices', dict(top=7 if not big else 10), dict(max_paths=2000)
    for d in ([2], [2, 3], [3] * 5, [2] * 7, [(2, 3)] * 4, [(2,), (3, 4), (5,)], [1, 5, 1], [5, 1, 2, 3, 1, 4],
              [(), (2,), ()], [2 ** 16] * 8, [(2,)] * 130, [(2 ** 20, 2 ** 20)] * 4, [np.int64(3)] * 3, [3, (2, 2), 3]):
        yield 'ranks', dict(dims=d)
