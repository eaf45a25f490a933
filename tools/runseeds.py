#!/usr/bin/env python3
"""development tool: run the property checks against the planted changes (scratch copies under /tmp). runseeds.py [id ...] [--all-props]"""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(S))
for i in ids:
    meta = json.load(open(os.path.join(S, i, 'meta.json')))
    d = tempfile.mkdtemp(prefix='sr-')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % d, shell=True)
        subprocess.check_call(['git', 'apply', '--directory=', os.path.join(S, i, 'patch.diff')], cwd=d)
        env = dict(os.environ, MFSA_REPO=d, MFSA_OUT=d + '/out')
        r = subprocess.run(['python3-vt', 'run.py', '--property', meta['property']], cwd=HERE, env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if 'does not satisfy' in l]
        print('%-45s %s %s rc=%d %s' % (i, meta['property'], 'CAUGHT' if r.returncode == 1 else 'MISSED', r.returncode, (v[0][:160] if v else r.stdout[-200:])), flush=True)
    finally:
        shutil.rmtree(d)
