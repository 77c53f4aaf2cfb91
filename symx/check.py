"""Check driver:  python -m symx.check C01 --tier quick

Every configuration of the property's harnesses is executed symbolically on
the code imported from /repo, the resulting goals are decided by the SMT
solver, and every goal that is not discharged is replayed on the unpatched
code before anything is reported.
"""
import argparse
import json
import multiprocessing as mpx
import os
import sys
import time
import traceback

from . import worker

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
FINDINGS = os.path.join(HERE, 'known_findings.json')

ASSUMPTIONS = [
    'IEEE doubles are modelled as exact real/complex numbers; rounding, overflow, nan and inf are outside the claim',
    'QR/SVD/eigh/pinv (LAPACK) are arbitrary values satisfying their documented contract',
    'random generators return arbitrary values of their range',
    'entries are symbolic; tensor shapes, ranks, site counts and argument forms are those listed under bounds',
    'numpy object-dtype kernels compute the same sums and products as the float kernels',
]


def _loop(conn, mode):
    sys.stdout = sys.stderr
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            break
        jid, kind, args, kw = job
        try:
            if kind == 'sym':
                out = worker.run_sym(*args, **kw)
            else:
                out = worker.run_conc(*args, **kw)
        except BaseException as e:
            out = {'crash': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())}
        conn.send((jid, out))
    try:
        from . import decide
        decide.SOLVER.stop()
    except Exception:
        pass


class Pool(object):
    def __init__(self, n, mode):
        self.mode = mode
        self.w = []
        self.queue = []
        self.n = n
        self.jobs = {}

    def submit(self, jid, *args, **kw):
        self.queue.append((jid, self.mode, args, kw))

    def _spawn(self):
        a, b = mpx.Pipe()
        p = mpx.Process(target=_loop, args=(b, self.mode))
        p.daemon = True
        p.start()
        b.close()
        return [p, a, None]

    def pump(self):
        while len(self.w) < min(self.n, len(self.queue) + sum(1 for x in self.w if x[2])):
            self.w.append(self._spawn())
        for x in self.w:
            if x[2] is None and self.queue:
                job = self.queue.pop(0)
                x[2] = job
                x[1].send(job)

    def busy(self):
        return bool(self.queue) or any(x[2] for x in self.w)

    def conns(self):
        return [x[1] for x in self.w if x[2]]

    def take(self, conn):
        for x in self.w:
            if x[1] is conn:
                job = x[2]
                try:
                    jid, out = conn.recv()
                except (EOFError, OSError):
                    jid, out = job[0], {'crash': 'worker died'}
                    self.w.remove(x)
                    return jid, out
                x[2] = None
                return jid, out

    def stop(self, hard=False):
        for p, c, job in self.w:
            try:
                if job is None and not hard:
                    c.send(None)
                else:
                    os.kill(p.pid, 9)
            except Exception:
                pass
        for p, c, job in self.w:
            p.join(2)
            if p.is_alive():
                os.kill(p.pid, 9)
        self.w = []


def load_findings(prop):
    try:
        with open(FINDINGS) as f:
            d = json.load(f)
    except (IOError, ValueError):
        return []
    return [x for x in d.get('findings', []) if x.get('property') == prop]


def matches(finding, harness, params, what):
    if finding.get('harness') != harness:
        return False
    if finding.get('params') is not None and finding['params'] != repr(params):
        return False
    return finding.get('what', '') in what


def norm_config(c):
    h, p = c[0], c[1]
    o = dict(c[2]) if len(c) > 2 else {}
    return h, p, o


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='substring of harness name')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--noevidence', action='store_true')
    a = ap.parse_args(argv)
    prop, tier = a.property, a.tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = worker.prop_module(prop)
    configs = [norm_config(c) for c in mod.configs(tier)]
    if a.only:
        configs = [c for c in configs if a.only in c[0]]
    seen = set()
    uniq = []
    for c in configs:
        k = (c[0], repr(sorted(c[1].items())))
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    configs = uniq
    # spread expensive configurations: put hinted-heavy ones first
    order = sorted(range(len(configs)), key=lambda i: -configs[i][2].get('cost', 1))
    budget = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000)
    limit = getattr(mod, 'LIMIT', {}).get(tier, 90 if tier == 'quick' else 600)
    sym = Pool(max(1, a.jobs - 1), 'sym')
    conc = Pool(2, 'conc')
    for i in order:
        h, p, o = configs[i]
        sym.submit(('s', i), prop, h, p, limit=o.get('limit', limit),
                   opts={k: v for k, v in o.items() if k in ('timeout', 'max_paths')})
        if not o.get('noconc'):
            conc.submit(('v', i, 0), prop, h, p, seed=seed)
    results = {}
    valid = {}
    violations = []
    pending = {}           # config -> list of replay attempts left
    late = False
    findings = load_findings(prop)
    known = []
    disagree = {}          # witness runs that failed on the real code
    SEEDS = 8

    def on_violation(i, what, rec):
        h, p, o = configs[i]
        for f in findings:
            if matches(f, h, p, what):
                known.append((f, what, i))
                return
        violations.append((i, what, rec))

    def start_replay(i, cands):
        h, p, o = configs[i]
        att = []
        for c in cands[:3]:
            att.append({'values': c.get('values') or {}, 'choices': c.get('choices'),
                        'seed': seed, 'label': c.get('label')})
        for s in range(SEEDS):
            ch = cands[s % len(cands)].get('choices') if cands and s % 2 == 0 else None
            att.append({'values': {}, 'choices': ch, 'seed': 1000 + s,
                        'label': cands[0].get('label') if cands else ''})
        att.append({'values': {}, 'choices': None, 'seed': seed, 'label': 'witness'})
        pending[i] = {'att': att, 'pos': 0, 'cands': cands}
        next_replay(i)

    def next_replay(i):
        st = pending[i]
        h, p, o = configs[i]
        if st['pos'] >= len(st['att']):
            del pending[i]
            return
        r = st['att'][st['pos']]
        conc.queue.insert(0, (('r', i, st['pos']), 'conc', (prop, h, p),
                              {'values': r['values'], 'choices': r['choices'], 'seed': r['seed']}))

    try:
        while True:
            sym.pump()
            conc.pump()
            if not sym.busy() and not conc.busy():
                break
            if time.time() - t0 > budget:
                late = True
                break
            for c in mpx.connection.wait(sym.conns() + conc.conns(), timeout=1.0):
                pool = sym if c in [x[1] for x in sym.w] else conc
                jid, out = pool.take(c)
                if jid[0] == 's':
                    i = jid[1]
                    results[i] = out
                    if a.verbose:
                        print('%-8s %s %s %.1fs paths=%s how=%s %s' % (
                            out.get('status', 'CRASH'), configs[i][0], configs[i][1],
                            out.get('wall', 0), out.get('paths'), out.get('how'),
                            '; '.join(out.get('notes', []))[:300]))
                        if 'crash' in out:
                            print(out['crash'])
                        for cd in out.get('candidates', [])[:2]:
                            print('    candidate', cd.get('label'), cd.get('how'), cd.get('detail'))
                        sys.stdout.flush()
                    if 'crash' in out:
                        continue
                    if out['status'] != 'holds':
                        start_replay(i, out['candidates'])
                    elif i in disagree:
                        on_violation(i, disagree[i], {'values': {}, 'choices': None, 'seed': seed})
                elif jid[0] == 'v':
                    i = jid[1]
                    valid[i] = out
                    if out.get('outcome') == 'broken':
                        # the solver has the first word on this configuration
                        if results.get(i, {}).get('status') == 'holds':
                            on_violation(i, out['what'], {'values': {}, 'choices': None, 'seed': seed})
                        else:
                            disagree[i] = out['what']
                            first = [j for j in sym.queue if j[0] == ('s', i)]
                            sym.queue = first + [j for j in sym.queue if j[0] != ('s', i)]
                    elif out.get('outcome') == 'skip' and jid[2] < 6:
                        h, p, o = configs[i]
                        conc.submit(('v', i, jid[2] + 1), prop, h, p, seed=seed + 100 + jid[2])
                elif jid[0] == 'r':
                    i, k = jid[1], jid[2]
                    st = pending[i]
                    if out.get('outcome') == 'broken':
                        on_violation(i, out['what'], st['att'][k])
                        del pending[i]
                    else:
                        st['pos'] = k + 1
                        next_replay(i)
            if violations and not a.verbose:
                break
    finally:
        hard = bool(violations) or late
        sym.stop(hard)
        conc.stop(hard)

    if not violations:
        for i, what in disagree.items():
            if results.get(i, {}).get('status') != 'holds' and i not in [k[2] for k in known]:
                on_violation(i, what, {'values': {}, 'choices': None, 'seed': seed})
    ok = [i for i in results if results[i].get('status') == 'holds']
    broken = set(i for i, _, _ in violations)
    found = set(k[2] for k in known)
    openc = [i for i in range(len(configs)) if i not in ok and i not in broken and i not in found]
    if not violations:
        if len(openc) > 15:
            print('INCONCLUSIVE property=%s %d configurations (first 15 listed)' % (prop, len(openc)))
        for i in openc[:15]:
            r = results.get(i, {})
            why = r.get('crash') or '; '.join(r.get('notes', [])) or '; '.join(
                '%s (%s)' % (c.get('label'), c.get('how')) for c in r.get('candidates', [])) or 'not reached'
            print('INCONCLUSIVE property=%s %s %r: %s' % (prop, configs[i][0], configs[i][1], why[:400]))
        for i, v in list(valid.items()):
            if v.get('outcome') not in ('ok', 'broken') or (v.get('outcome') == 'ok' and not v.get('checked')):
                print('INCONCLUSIVE property=%s %s %r: concrete witness run: %s' % (
                    prop, configs[i][0], configs[i][1], v))
    for f, what in dict((f.get('title', w), (f, w)) for f, w, _ in known).values():
        print('KNOWN-FINDING: property=%s %s' % (prop, f.get('title', what)))
    code = 0
    if violations:
        code = 1
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        for n, (i, what, rec) in enumerate(violations[:5]):
            path = os.path.join(EVID, 'replays', '%s-%d.json' % (prop, n))
            h, p, o = configs[i]
            with open(path, 'w') as f:
                json.dump({'property': prop, 'harness': h, 'params': repr(p), 'what': what,
                           'values': {k: [complex(v).real, complex(v).imag] if isinstance(v, complex) else v
                                      for k, v in (rec.get('values') or {}).items()},
                           'choices': rec.get('choices'), 'seed': rec.get('seed')}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s %r: %s' % (h, p, what))
    elif not ok and configs:
        code = 2
    wall = time.time() - t0
    if not a.noevidence:
        write_evidence(prop, tier, seed, mod, configs, results, valid, violations, known,
                       ok, openc, wall)
    st = agg(results)
    print('%s %s: %d/%d configurations decided, %d obligations, %d queries, %.1fs solver, %.1fs wall' % (
        prop, tier, len(ok), len(configs), st['discharged'], st['queries'], st['solver_s'], wall))
    sys.stdout.flush()
    os._exit(code)


def agg(results):
    t = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0,
         'asserted_nodes': 0, 'lra_instances': 0, 'obligations': 0, 'discharged': 0,
         'paths': 0}
    for r in results.values():
        for k in t:
            if k in r:
                t[k] += r[k]
            elif k in r.get('stats', {}):
                t[k] += r['stats'][k]
    t['solver_s'] = round(t['solver_s'], 2)
    return t


def write_evidence(prop, tier, seed, mod, configs, results, valid, violations, known,
                   ok, openc, wall):
    os.makedirs(EVID, exist_ok=True)
    fns, stubs_used, how, labels = set(), {}, {}, []
    maxvars = 0
    for r in results.values():
        fns.update(r.get('functions', ()))
        for k, v in r.get('stubs', {}).items():
            stubs_used[k] = stubs_used.get(k, 0) + v
        for k, v in r.get('how', {}).items():
            how[k] = how.get(k, 0) + v
        for l in r.get('labels', ()):
            if l not in labels:
                labels.append(l)
        maxvars = max(maxvars, r.get('vars', 0))
    t = agg(results)
    per = {}
    for i, (h, p, o) in enumerate(configs):
        d = per.setdefault(h, {'configurations': 0, 'decided': 0})
        d['configurations'] += 1
        d['decided'] += i in ok
    cov = {
        'explanation': 'Symbolic execution of the current /repo source with symbolic tensor entries; '
                       'each goal negated and decided by z3 (unsat = holds for every value of the entries '
                       'within the listed configurations). Undischarged goals are replayed on the unpatched code.',
        'obligations': t['obligations'], 'discharged': t['discharged'],
        'configurations': len(configs), 'configurations_decided': len(ok),
        'configurations_inconclusive': len(openc) if not violations else 0,
        'paths': t['paths'], 'queries': t['queries'], 'queries_unsat': t['unsat'],
        'queries_sat': t['sat'], 'queries_unknown': t['unknown'],
        'solver_seconds': t['solver_s'], 'dag_nodes_encoded': t['asserted_nodes'],
        'hypothesis_instances': t['lra_instances'], 'max_symbolic_variables': maxvars,
        'decided_by': how,
        'functions_encoded': sorted(fns), 'contract_stubs_used': stubs_used,
        'harnesses': per,
        'bounds': getattr(mod, 'BOUNDS', ''),
        'outside': getattr(mod, 'OUTSIDE', ''),
        'witness_runs_on_real_code': sum(1 for v in valid.values() if v.get('outcome') == 'ok'),
        'samples': [{'harness': h, 'params': repr(p)} for h, p, o in configs[:6]],
        'obligation_labels': labels[:60],
        'checker_cmd': 'z3-new -in -smt2',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUMES', [])),
          'wall_s': round(wall, 2), 'violations': len(violations)}
    with open(os.path.join(EVID, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    import multiprocessing.connection  # noqa
    main()
