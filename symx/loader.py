"""Import the code under test from /repo and swap its numeric primitives.

The swap is done on the module globals of the imported mpnum modules: every
global that *is* numpy, or one of the listed numpy/scipy functions, is replaced
by a proxy that dispatches to the symbolic implementation when it sees symbolic
arguments (and to the real one otherwise).  No source text is touched.
"""
import os
import sys
import types

import numpy as np

REPO = os.environ.get('SYMX_REPO', '/repo')


def import_real():
    sys.dont_write_bytecode = True
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import mpnum
    import mpnum.factory, mpnum.linalg, mpnum.mpsmpo, mpnum.special  # noqa
    import mpnum.povm, mpnum.povm.localpovm, mpnum.povm.mppovm       # noqa
    import mpnum.utils.physics, mpnum.utils.pmf, mpnum.utils.extmath  # noqa
    import mpnum.utils.array_transforms                              # noqa
    f = os.path.abspath(mpnum.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('mpnum imported from %s' % f)
    return mpnum


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, name):
        d = self.__dict__
        o = d['_over']
        if name in o:
            return o[name]
        return getattr(d['_real'], name)


def import_symbolic():
    mpnum = import_real()
    import scipy
    import scipy.linalg
    import scipy.sparse
    import scipy.sparse.linalg
    from . import arr, stubs, sparse
    rnd = stubs.SymRandom('nprandom')
    nplinalg = np.linalg
    np_over = dict(arr.CREATION)
    np_over['random'] = rnd
    for nm in ('norm', 'qr', 'svd', 'eigh', 'eigvalsh', 'inv', 'pinv'):
        pass
    npproxy = Proxy(np, np_over)

    def sp(name, symf):
        real = getattr(scipy.linalg, name)

        def f(a, *args, **kw):
            if arr.has_sym(a):
                return symf(a, *args, **kw)
            return real(a, *args, **kw)
        f.__name__ = name
        return f

    def spqr(a, *args, **kw):
        kw.setdefault('mode', 'full')
        return stubs.sym_qr(a, mode=kw['mode'])

    sl_over = {'qr': sp('qr', spqr), 'svd': sp('svd', stubs.sym_svd),
               'eigh': sp('eigh', stubs.sym_eigh),
               'eigvalsh': sp('eigvalsh', stubs.sym_eigvalsh),
               'inv': sp('inv', stubs.sym_inv), 'pinv': sp('pinv', stubs.sym_pinv),
               'lu': sp('lu', stubs.sym_lu),
               'norm': sp('norm', arr.FUNCS[np.linalg.norm])}
    slproxy = Proxy(scipy.linalg, sl_over)
    sparse_over = sparse.overrides()
    ssproxy = Proxy(scipy.sparse, sparse_over)
    ssl_over = sparse.linalg_overrides()
    sslproxy = Proxy(scipy.sparse.linalg, ssl_over)
    sparse_over['linalg'] = sslproxy
    sciproxy = Proxy(scipy, {'linalg': slproxy, 'sparse': ssproxy})

    swap = {}

    def reg(real, new):
        swap[id(real)] = (real, new)
    reg(np, npproxy)
    reg(np.random, rnd)
    reg(scipy, sciproxy)
    reg(scipy.linalg, slproxy)
    reg(scipy.sparse, ssproxy)
    reg(scipy.sparse.linalg, sslproxy)
    for k, v in arr.CREATION.items():
        reg(getattr(np, k), v)
    for k, v in sl_over.items():
        reg(getattr(scipy.linalg, k), v)
    for k, v in sparse_over.items():
        if hasattr(scipy.sparse, k):
            reg(getattr(scipy.sparse, k), v)
    for k, v in ssl_over.items():
        reg(getattr(scipy.sparse.linalg, k), v)

    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'mpnum' or name.startswith('mpnum.')):
            continue
        g = mod.__dict__
        for k in list(g):
            if k.startswith('__'):
                continue
            hit = swap.get(id(g[k]))
            if hit is not None and hit[0] is g[k]:
                g[k] = hit[1]
    return mpnum


FUNCTIONS = set()


def tracer(frame, event, arg):
    if event == 'call':
        co = frame.f_code
        fn = co.co_filename
        if fn.startswith(REPO):
            FUNCTIONS.add('%s:%s' % (os.path.relpath(fn, REPO), co.co_name))
