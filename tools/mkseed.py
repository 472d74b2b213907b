#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids...]: makes /verif/seeded/<id>/ from a list BUGS of dicts (id, property, edits, demo, needs, what).

Every change is made in a scratch copy of /repo; it is kept only if the copy builds, its stable tests pass, and the
demonstration passes on /repo and fails on the copy."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/venv/bin/python'
DEST = '/verif/seeded'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
HEAD = '''import os, sys
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
import numpy as np
'''


def run(cmd, cwd, src, timeout=300):
    env = dict(os.environ, PYTHONPATH=src, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def make(b):
    tmp = tempfile.mkdtemp(prefix='seed-' + b['id'] + '-', dir='/tmp')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        for f, old, new in b['edits']:
            p = os.path.join(repo, 'src/kcorrect', f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, check=True).stdout.decode()
        out = os.path.join(tmp, 'out')
        os.mkdir(out)
        open(out + '/demo.py', 'w').write(HEAD + b['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what']), open(out + '/meta.json', 'w'), indent=1)
        rc, o = run(['bash', out + '/demo.sh'], '/repo', '/repo/src')
        if rc != 0:
            return b['id'], 'demo fails on the unchanged tree: ' + o[-400:]
        rc, o2 = run(['bash', out + '/demo.sh'], repo, repo + '/src')
        if rc == 0:
            return b['id'], 'demo passes with the change'
        rc, o = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], repo, repo + '/src')
        if rc != 0 and ' passed' in o and 'failed' in o:
            fails = [l for l in o.splitlines() if l.startswith('FAILED')]
            return b['id'], 'tests fail: %s' % fails[:3]
        if rc != 0:
            return b['id'], 'tests: ' + o[-300:]
        d = os.path.join(DEST, b['id'])
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(out):
            shutil.copy(os.path.join(out, f), d)
        return b['id'], 'kept; demo says: ' + (o2.strip().splitlines() or [''])[-1][:160]
    finally:
        shutil.rmtree(tmp)


bugs = runpy.run_path(sys.argv[1])['BUGS']
if sys.argv[2:]:
    bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(make, bugs):
        print(i, ':', m)
