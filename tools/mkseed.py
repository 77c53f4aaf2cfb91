"""mkseed.py SPEC.py ...: writes seeded/<id>/ from a spec file with
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    tmp = tempfile.mkdtemp(prefix='mkseed_')
    w = tmp + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in s['EDITS']:
        t = open(w + '/' + f).read()
        assert t.count(old) == 1, (spec, f, t.count(old), old)
        open(w + '/' + f, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=w).decode()
    d = os.path.join(HERE, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)
    print('wrote', s['ID'])
