#!/usr/bin/env python3
"""seedtest.py ID [--notests] [--nocheck]: confirm a planted change in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]
d = os.path.join(HERE, 'seeded', i)
meta = json.load(open(d + '/meta.json'))
tmp = tempfile.mkdtemp(prefix='seed_')
try:
    w = tmp + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call('find %s -name __pycache__ -prune -exec rm -rf {} +' % w, shell=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', LC_ALL='C.UTF-8', PYTHONPATH=w)
    subprocess.check_call(['cp', '-a', d, tmp + '/demo'])
    run = lambda: subprocess.run(['bash', tmp + '/demo/demo.sh'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    a = run()
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w)
    b = run()
    out = '%s %s demo clean=%d patched=%d' % (i, meta['property'], a.returncode, b.returncode)
    if a.returncode:
        out += a.stdout.decode()[-300:]
    if '--notests' not in sys.argv:
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--tb=short',
                        '--continue-on-collection-errors', '--benchmark-disable', '-m', 'not verylong', '--basetemp=' + tmp + '/t',
                        '--junitxml=' + tmp + '/j.xml'], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', tmp + '/o.json', 'junit:' + tmp + '/j.xml'], stdout=subprocess.DEVNULL)
        o = json.load(open(tmp + '/o.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        key = lambda x: set(x.get('passed', x.get('stable', x.get('tests', []))))
        miss = key(base) - key(o)
        out += ' tests_missing=%d %s' % (len(miss), sorted(miss)[:2])
    if '--nocheck' not in sys.argv:
        e = dict(env, SYMX_REPO=w, VERIF_SEED='1')
        e.pop('PYTHONPATH')
        c = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'symx.check', meta['property'], '--noevidence'],
                           cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out += ' check=%d' % c.returncode + '\n    ' + '\n    '.join(c.stdout.decode()[-600:].strip().split('\n')[-3:])
    print(out)
finally:
    shutil.rmtree(tmp)
