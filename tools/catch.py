#!/usr/bin/env python3
"""catch.py [--all] [SEED...]: applies each planted bug to /repo, runs the check of its property (--all: every claimed
check), undoes it, and prints which checks report it."""
import json, os, subprocess, sys, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sd = os.path.join(root, 'seeded')
args = sys.argv[1:]; every = '--all' in args; args = [a for a in args if a != '--all']
claimed = [c['property'] for c in json.load(open(os.path.join(root, 'MANIFEST.json')))['checks']]
if subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True): sys.exit('/repo is not clean')
for s in args or sorted(os.listdir(sd)):
    d = os.path.join(sd, s); prop = json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        res = []
        for c in (claimed if every else [prop] if prop in claimed else []):
            t = time.time()
            r = subprocess.run(['bash', root + '/run.sh', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_DIR_X='1'))
            hit = r.returncode == 1 and ('VIOLATION property=%s ' % c) in r.stdout
            if hit: res.append('%s(%.0fs)' % (c, time.time() - t))
            elif r.returncode: res.append('%s:rc=%d' % (c, r.returncode))
        print(s, prop, 'CAUGHT by' if any(x.startswith(prop + '(') for x in res) else 'MISSED', ' '.join(res), flush=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
