#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)makes /verif/seeded/<id> from tools/seeds.py.  Each change is applied in a scratch copy of
/repo, which must build and pass the stable tests; its demonstration must pass without the change and fail with it."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); out = os.path.join(os.path.dirname(here), 'seeded')
sys.path.insert(0, here)
import seeds
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=readonly', GOWORK='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
DEMO = '''#!/bin/bash
# run with cwd at the repository: exit 0 when the behaviour is right
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp -d) || exit 3
trap 'rm -rf "$O"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go.txt"}}' "$PWD" "$D" > "$O/overlay.json"
go build -overlay "$O/overlay.json" -o "$O/demo" ./zz_demo || exit 3
mkdir "$O/work" && cd "$O/work" && timeout 100 "$O/demo"
'''
HELP = open(os.path.join(here, 'demo_help.go.txt')).read()

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def demo(d, cwd):
    r = run(['bash', os.path.join(d, 'demo.sh')], cwd)
    return r.returncode, r.stdout

def main():
    want = sys.argv[1:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in seeds.SEEDS:
        if want and s['id'] not in want: continue
        d = os.path.join(out, s['id'])
        tmp = tempfile.mkdtemp(prefix='seed-'); copy = os.path.join(tmp, 'repo')
        try:
            subprocess.check_call(['cp', '-a', '/repo', copy])
            dd = os.path.join(tmp, 'd'); os.mkdir(dd)
            for f, a, b in s['edits']:
                p = os.path.join(copy, f); t = open(p).read()
                if t.count(a) != 1: raise SystemExit(f"{s['id']}: {t.count(a)} matches in {f}: {a!r}")
                open(p, 'w').write(t.replace(a, b))
            r = run(['go', 'build', './...'], copy)
            if r.returncode: raise SystemExit(s['id'] + ': ' + r.stdout)
            open(os.path.join(dd, 'patch.diff'), 'w').write(subprocess.check_output(['git', 'diff'], cwd=copy, text=True))
            body = s['demo']
            imp = ''.join('\t"%s"\n' % i for i in s.get('imports', []))
            open(os.path.join(dd, 'main.go.txt'), 'w').write(HELP.replace('//IMPORTS\n', imp) + '\n' + body.strip() + '\n')
            open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(dd, 'demo.sh'), 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(dd, 'meta.json'), 'w'), indent=1)
            rc, o = demo(dd, '/repo')
            if rc: raise SystemExit(f"{s['id']}: demo fails on the unchanged tree ({rc}): {o[-1500:]}")
            rc, o = demo(dd, copy)
            if rc in (0, 3): raise SystemExit(f"{s['id']}: demo gives {rc} with the change: {o[-1500:]}")
            log = os.path.join(tmp, 'log')
            with open(log, 'w') as f:
                subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], cwd=copy, env=ENV, stdout=f)
            subprocess.check_call(['python3', '/opt/vp/results.py', tmp + '/out.json', 'gojson:' + log], stdout=subprocess.DEVNULL)
            missing = stable - set(json.load(open(tmp + '/out.json'))['passed'])
            if missing: raise SystemExit(f"{s['id']}: tests notice it: {sorted(missing)[:5]}")
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(dd, d)
            print(s['id'], 'ok:', o.strip().split('\n')[-1][:150])
        except SystemExit as e:
            print('FAILED', e)
        finally:
            shutil.rmtree(tmp)
main()
