#!/usr/bin/env python3
"""tryseeds.py [ids...]: runs the check of each seeded bug's property (or --all checks) on a scratch copy with the patch."""
import json, os, shutil, subprocess, sys, tempfile
S = '/verif/seeded'
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from sa import registry
args = [a for a in sys.argv[1:] if not a.startswith('-')]
for i in sorted(args or os.listdir(S)):
    meta = json.load(open('%s/%s/meta.json' % (S, i)))
    tmp = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        os.makedirs(tmp + '/src')
        subprocess.run(['cp', '-a', '/repo/src/kcorrect', tmp + '/src/kcorrect'], check=True)
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + tmp, '%s/%s/patch.diff' % (S, i)], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            subprocess.run('patch -p1 -s < %s/%s/patch.diff' % (S, i), shell=True, cwd=tmp, check=True)
        pids = sorted(registry.PROPS) if '--all' in sys.argv else [meta['property']]
        for pid in pids:
            if pid not in registry.PROPS:
                print(i, pid, 'no check')
                continue
            r = subprocess.run(['python3', '/verif/check.py', pid, '--repo', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/verif')
            o = r.stdout.decode().splitlines()
            if r.returncode or '--all' not in sys.argv:
                v = [l for l in o if l.startswith('  ') and 'undecided' not in l]
                print(i, pid, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %d' % r.returncode), (v[0] if v else o[-1])[:230])
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)
