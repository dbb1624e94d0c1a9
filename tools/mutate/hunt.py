#!/usr/bin/env python3
"""hunt.py MUTDIR [all]: builds the checker with each surviving mutant and runs the checks until one reports it; writes
MUTDIR/hunt (one line per mutant).  With 'all' every check is run.  Follows MUTDIR/survivors while it grows."""
import os, subprocess, sys, time, shutil
d = sys.argv[1]; every = 'all' in sys.argv[2:]
env = dict(os.environ, MC_BUDGET=os.environ.get('MC_BUDGET', '12'), VERIF_DIR=d + '/vd')
os.makedirs(d + '/vd', exist_ok=True); shutil.copy('/verif/KNOWN_FINDINGS.txt', d + '/vd')
LEX = 'C02 C01 C03'.split()
STR = 'C07 C08 C09 C12 C10 C11'.split()
RES = 'C16 C13 C17 C18 C23 C14 C24 C22'.split()
REST = 'C20 C05 C04 C06 C19'.split()
def order(f, op):
    o = []
    if f.startswith(('token', 'runes')): o = LEX + ['C22'] + STR
    elif f.startswith('ext') or 'pcontext' in f or 'decl' in f: o = RES
    elif 'class' in f: o = ['C10', 'C18', 'C20', 'C05']
    elif 'expr' in f: o = ['C07', 'C20']
    elif 'statement' in f: o = ['C08', 'C20']
    elif 'type' in f: o = ['C09', 'C23', 'C20', 'C17']
    elif 'unit' in f or 'program' in f or 'uses' in f: o = ['C12', 'C14', 'C22', 'C20']
    elif f.startswith(('ast', 'parser')): o = ['C11', 'C20'] + STR
    if 'err' in op or 'Errorf' in op: o = o + ['C19', 'C06']
    r = []
    for x in o + STR + RES + REST + LEX:
        if x not in r: r.append(x)
    return r
def dull(f, op):
    # not reachable from the parser, or an error text
    return 'parsertest' in f or 'type_interface' in f or f.startswith('log/') or (op.startswith('change string') and ('%' in op or ' ' in op.split('"')[1])) or (op.startswith('drop argument') and 'String()' in op)
done = set()
if os.path.exists(d + '/hunt'): done = {l.split()[0] for l in open(d + '/hunt')}
while True:
    todo = [l.split(' ', 2) for l in open(d + '/survivors').read().splitlines()]
    todo = [t for t in todo if t[0] not in done and not dull(t[1], t[2])]
    if not todo:
        if os.path.exists(d + '/stop') or subprocess.run(['pgrep', '-f', 'survive.py ' + d], stdout=subprocess.DEVNULL).returncode: break
        time.sleep(5); continue
    for no, where, op in todo:
        done.add(no)
        mc = d + '/mc.bin'
        b = subprocess.run(['go', 'build', '-overlay', d + '/' + no + '.json', '-o', mc, '.'], cwd=os.environ.get('MC_DIR', '/verif/mc'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            print(no, 'does not build', b.stdout.decode()[:300], flush=True); continue
        res = []; t = time.time()
        for c in order(where, op):
            r = subprocess.run([mc, 'run', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
            if r.returncode == 1: res.append(c)
            elif r.returncode: res.append(c + ':rc%d' % r.returncode)
            if res and not every: break
        with open(d + '/hunt', 'a') as f: print(no, where, 'CAUGHT ' + ' '.join(res) if res else 'MISSED', '%.0fs' % (time.time() - t), op, file=f)
