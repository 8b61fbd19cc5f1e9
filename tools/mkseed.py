#!/usr/bin/env python3
# Builds and confirms planted bugs. Usage: mkseed.py SEEDS.py [ID...]
# SEEDS.py holds S = [dict(id, prop, edits=[(file, old, new)], pkg, test, needs, breaks)].
# Each is made in a scratch copy of /repo and kept only if it builds, passes the stable tests,
# and its demonstration passes without and fails with the change.
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestZZDemo$' ./PKG
'''
base = {}
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def tests(cwd):
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', './lib/...', './uint256/...'], cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'): ok.add(d['Package'] + ' ' + d['Test'])
    return ok
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = set(sys.argv[2:])
    ref = tests('/repo')
    for s in g['S']:
        if want and s['id'] not in want: continue
        d = f"{V}/seeded/{s['id']}"
        if os.path.exists(d) and not want: continue
        w = tempfile.mkdtemp(prefix='seed'); r = w + '/repo'
        shutil.copytree('/repo', r, symlinks=True)
        try:
            bad = None
            for f, a, b in s['edits']:
                t = open(f'{r}/{f}').read()
                n = t.count(a)
                if n != 1: bad = f'{f}: {n} matches of {a!r}'; break
                open(f'{r}/{f}', 'w').write(t.replace(a, b))
            if not bad:
                p = sh(['git', 'diff'], r).stdout
                o = sh(['go', 'build', './...'], r)
                if o.returncode: bad = 'build: ' + o.stderr[:500]
            if not bad:
                lost = ref - tests(r)
                if lost: bad = f'tests lost: {sorted(lost)[:5]}'
            if not bad:
                os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(p)
                open(d + '/demo_test.go.txt', 'w').write(s['test'])
                open(d + '/demo.sh', 'w').write(DEMO.replace('PKG', s['pkg'])); os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                a = sh(['bash', d + '/demo.sh'], '/repo'); b = sh(['bash', d + '/demo.sh'], r)
                if a.returncode != 0: bad = 'demo fails on clean: ' + (a.stdout + a.stderr)[-800:]
                elif b.returncode == 0: bad = 'demo passes on patched'
                elif 'FAIL' not in b.stdout or 'build failed' in b.stdout: bad = 'demo odd failure: ' + (b.stdout + b.stderr)[-500:]
                if bad: shutil.rmtree(d)
            if bad: print(s['id'], 'REJECTED', bad); continue
            c = subprocess.run([V + '/bin/vchk', '-prop', s['prop'], '-repo', r, '-verif', V], capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print(s['id'], s['prop'], 'caught' if c.returncode == 1 and v else f'MISSED rc={c.returncode} ' + c.stdout[-300:])
        finally:
            shutil.rmtree(w)
main()
