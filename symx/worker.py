"""Work on one harness configuration: symbolic decision or concrete run."""
import importlib
import os
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
from . import loader
from .env import Broken, ConcEnv, Skip, make_symenv

DEPTH = 9000          # fits the usual 8 MB stack, so that runaway recursion raises
sys.setrecursionlimit(DEPTH)


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def prop_module(prop):
    return importlib.import_module('symx.props.%s' % prop.lower())


_STATE = {}


def sym_setup():
    if 'mp' not in _STATE:
        _STATE['mp'] = loader.import_symbolic()
        _STATE['env'] = make_symenv()
        _STATE['traced'] = {}
    return _STATE


def conc_setup():
    if 'mp' not in _STATE:
        import warnings
        warnings.simplefilter('ignore')
        _STATE['mp'] = loader.import_real()
    return _STATE


def _where(tb):
    """innermost frames of an exception, for the report"""
    fr = traceback.extract_tb(tb)[-3:]
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                       for f in reversed(fr))


def _absent(x, tb):
    """The harness refers to a function of a module which is not there (any more)."""
    if not isinstance(x, AttributeError) or "module 'mpnum" not in str(x):
        return False
    fr = traceback.extract_tb(tb)[-1]
    name = str(x).rsplit("attribute", 1)[-1].strip(" '\"")
    return os.path.basename(os.path.dirname(fr.filename)) == 'props' and name.startswith('_')


def run_sym(prop, harness, params, limit=60, opts=None):
    from . import decide, smt, stubs
    from . import term as T
    from .path import Explorer, PathLimit
    st = sym_setup()
    fn = getattr(prop_module(prop), harness)
    opts = opts or {}
    t0 = time.time()
    for k in smt.STATS:
        smt.STATS[k] = 0 if k != 'solver_s' else 0.0
    stubs.USED.clear()
    loader.FUNCTIONS.clear()
    res = {'harness': harness, 'params': params, 'status': 'holds', 'paths': 0,
           'obligations': 0, 'discharged': 0, 'how': {}, 'candidates': [],
           'labels': [], 'notes': [], 'vars': 0}
    # tracing is slow: the first, second, fourth, ... run of a harness
    nth = st['traced'][harness] = st['traced'].get(harness, 0) + 1
    trace = nth & (nth - 1) == 0
    ex = Explorer(max_paths=opts.get('max_paths', 600))

    def body(e):
        env = st['env'](st['mp'], e)
        err = None
        if trace:
            sys.setprofile(loader.tracer)
        try:
            fn(env, **params)
        except T.Unsupported as x:
            err = ('unsupported', '%s at %s' % (x, _where(sys.exc_info()[2])))
        except RecursionError as x:
            err = ('unsupported', 'recursion')
        except Exception as x:       # the code under test raised
            kind = 'unsupported' if _absent(x, sys.exc_info()[2]) else 'raised'
            err = (kind, '%s: %s at %s' % (type(x).__name__, x, _where(sys.exc_info()[2])))
        finally:
            sys.setprofile(None)
            env.close()
        return env, err

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        for env, err in ex.run(body):
            res['paths'] += 1
            res['vars'] = max(res['vars'], len(T.CTX.vorder))
            _discharge(env, err, res, opts)
            if res['status'] == 'candidate':
                break
        if res['paths'] == 0:
            res['status'] = 'open'
            res['notes'].append('no feasible path')
    except Timeout:
        decide.SOLVER.stop()
        if res['status'] == 'holds':
            res['status'] = 'open'
        res['notes'].append('time limit %ss' % limit)
    except PathLimit as x:
        res['status'] = 'open' if res['status'] == 'holds' else res['status']
        res['notes'].append(str(x))
    except T.Unsupported as x:
        res['status'] = 'open' if res['status'] == 'holds' else res['status']
        res['notes'].append('unsupported: %s' % x)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res['stats'] = dict(smt.STATS)
    res['stubs'] = dict(stubs.USED)
    res['functions'] = sorted(loader.FUNCTIONS)
    res['wall'] = time.time() - t0
    return res


def _discharge(env, err, res, opts):
    from . import decide
    from . import term as T
    timeout = opts.get('timeout', 30)
    if err is not None:
        kind, msg = err
        res['obligations'] += 1
        if kind == 'unsupported':
            if res['status'] == 'holds':
                res['status'] = 'open'
            res['notes'].append('unsupported: ' + msg)
            res['candidates'].append({'label': 'not encodable', 'values': {},
                                      'choices': list(env.choices)})
        else:
            model = _model_of(env.ex.pc)
            res['status'] = 'candidate'
            res['candidates'].append({'label': msg, 'values': model,
                                      'choices': list(env.choices)})
            return
    # group equalities by path condition
    groups = {}
    order = []
    for pc, kind, payload, label in env.obligations:
        res['obligations'] += 1
        if label not in res['labels'] and len(res['labels']) < 200:
            res['labels'].append(label)
        if kind == 'fail':
            res['status'] = 'candidate'
            res['candidates'].append({'label': label, 'values': _model_of(pc),
                                      'choices': list(env.choices)})
            return
        if kind == 'bool':
            if payload is T.TRUE:
                res['discharged'] += 1
                continue
            r = decide.direct([payload], pc, timeout)
            _take(r, res, env, label, [], pc)
            if res['status'] == 'candidate':
                return
            continue
        key = pc
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append((payload, label))
    for pc in order:
        items = groups[pc]
        pairs = [p for payload, _ in items for p in payload]
        r = decide.prove_eqs(pairs, pc, timeout, light=len(items) > 1)
        if r.verdict == 'holds':
            res['discharged'] += len(items)
            res['how'][r.how] = res['how'].get(r.how, 0) + len(items)
            continue
        for payload, label in items:
            r = decide.prove_eqs(payload, pc, timeout)
            _take(r, res, env, label, payload, pc)
            if res['status'] == 'candidate':
                return


def _take(r, res, env, label, pairs, pc):
    from . import decide
    if r.verdict == 'holds':
        res['discharged'] += 1
        res['how'][r.how] = res['how'].get(r.how, 0) + 1
        return
    values = r.model
    if values is None and pairs:
        bad = [p for p in pairs if p[0] is not p[1]]
        values = decide.counterexample(bad, pc, 10) if r.how != 'no-derivation' else None
    if not values and pc:
        values = _model_of(pc)
    cand = {'label': label, 'values': values or {}, 'choices': list(env.choices),
            'how': r.how, 'detail': r.detail}
    res['candidates'].append(cand)
    if r.verdict == 'refuted' or r.how in ('no-derivation', 'lra', 'identity-sat'):
        res['status'] = 'candidate'
    elif res['status'] == 'holds':
        res['status'] = 'open'
        res['notes'].append('%s: %s %s' % (label, r.how, r.detail))


def _model_of(pc):
    from . import decide
    from . import term as T
    if not pc:
        return {}
    try:
        r = decide.direct([T.FALSE], list(pc), 10)
    except Exception:
        return {}
    return r.model or {}


def run_conc(prop, harness, params, values=None, choices=None, seed=0, limit=60):
    """Outcome of the harness on the unpatched code."""
    st = conc_setup()
    fn = getattr(prop_module(prop), harness)
    env = ConcEnv(st['mp'], values, choices, seed)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    sys.setrecursionlimit(1500)
    try:
        import numpy as np
        with np.errstate(all='ignore'):
            fn(env, **params)
        return {'outcome': 'ok', 'checked': env.checked}
    except Skip:
        return {'outcome': 'skip', 'checked': env.checked}
    except Broken as b:
        return {'outcome': 'broken', 'what': str(b), 'checked': env.checked}
    except Timeout:
        return {'outcome': 'timeout', 'checked': env.checked}
    except Exception as x:
        if _absent(x, sys.exc_info()[2]):
            return {'outcome': 'skip', 'checked': env.checked}
        return {'outcome': 'broken', 'what': 'unexpected %s: %s at %s' % (
            type(x).__name__, x, _where(sys.exc_info()[2])), 'checked': env.checked}
    finally:
        sys.setrecursionlimit(DEPTH)
        env.close()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
