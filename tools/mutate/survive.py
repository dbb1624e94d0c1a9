#!/usr/bin/env python3
"""survive.py MUTDIR [WORKERS]: builds each mutant of MUTDIR and runs the repository's tests on it; writes the numbers of
those that build and pass to MUTDIR/survivors."""
import os, subprocess, sys, concurrent.futures as cf
d = sys.argv[1]; w = int(sys.argv[2]) if len(sys.argv) > 2 else 6
env = dict(os.environ, GOFLAGS='-mod=readonly', GOMAXPROCS='2')
idx = [l.split(' ', 2) for l in open(d + '/index').read().splitlines()]
import random; random.Random(1).shuffle(idx)
def run(cmd, t):
    try:
        return subprocess.run('ulimit -v 20000000; ' + cmd, shell=True, cwd='/repo', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t).returncode
    except subprocess.TimeoutExpired:
        return 99
def one(m):
    o = d + '/' + m[0] + '.json'
    if run('go build -p 2 -overlay %s ./...' % o, 120): return m, 'nobuild'
    if run('exec timeout 60 go test -p 2 -vet=off -failfast -timeout 50s -overlay %s ./parser ./%s' % (o, os.path.dirname(m[1].split(':')[0])), 70): return m, 'killed'
    if run('exec timeout 60 go test -p 2 -vet=off -failfast -timeout 50s -overlay %s ./...' % o, 70): return m, 'killed'
    return m, 'alive'
n = {}
with cf.ThreadPoolExecutor(w) as ex, open(d + '/survivors', 'w') as f:
    for i, (m, r) in enumerate(ex.map(one, idx)):
        n[r] = n.get(r, 0) + 1
        if r == 'alive': print(*m, file=f, flush=True)
        if i % 200 == 0: print(i, n, flush=True)
print(n)
