#!/usr/bin/env python3
# Applies each behaviour-preserving edit of REFAC*.py to a scratch copy of /repo,
# builds, runs the tests, and runs the checks: all must stay quiet.
import subprocess, sys, os, shutil, glob, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/rf'
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
R = []
for f in sorted(glob.glob(V + '/tools/REFAC*.py')):
    s = importlib.util.spec_from_file_location('r', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    R += m.R
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
notest = '-notest' in sys.argv
chk = os.environ.get('VCHK', '/tmp/vchk')
def one(r):
    id, props, edits = r
    d = f'{W}/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f'cd /repo && git ls-files | tar cf - -T - | tar xf - -C {d}', shell=True, check=True)
    out = []
    try:
        for f, a, b in edits:
            p = f'{d}/{f}'
            s = open(p).read() if os.path.exists(p) else ''
            if a == '' and not s:
                open(p, 'w').write(b); continue
            if s.count(a) < 1: return id, f'EDIT NOT FOUND in {f}: {a[:60]!r}'
            s = s.replace(a, b)
            open(p, 'w').write(s)
        x = subprocess.run('go vet ./lib/... . ./uint256 2>&1 | grep -v "^#" | head -5; go build ./... 2>&1 | head -5', shell=True, cwd=d, env=env, capture_output=True, text=True)
        if 'go:' in x.stdout and ': ' in x.stdout and ('undefined' in x.stdout or 'declared' in x.stdout or 'syntax' in x.stdout or 'cannot' in x.stdout): return id, 'BUILD ' + x.stdout
        if not notest:
            x = subprocess.run('go test ./lib/... ./uint256 . 2>&1 | grep -E "^(---|FAIL|panic)" | head', shell=True, cwd=d, env=env, capture_output=True, text=True)
            if x.stdout.replace('--- FAIL: TestFormat (0.00s)','').replace('--- FAIL: Test_Fee (0.00s)','').count('--- FAIL'): out.append('TESTS ' + x.stdout)
        ps = set(props.split(',')) | {'C13', 'C14', 'C28'}
        if any(e[0] == 'main.go' for e in edits): ps |= {'C23', 'C24', 'C25', 'C26', 'C27'}
        if any(e[0].startswith('lib/executor') for e in edits): ps |= {'C21', 'C22'}
        props = ','.join(sorted(ps))
        x = subprocess.run(['timeout', '900', chk, '-prop', props + ',', '-repo', d, '-verif', V], env=env, capture_output=True, text=True)
        o = (x.stdout + x.stderr)
        for l in o.splitlines():
            if l.startswith('violation') or 'undecided:' in l or 'panic' in l: out.append(l[:260])
        out.append(o.splitlines()[-1][:200] if 'undecided:' not in o else [l for l in o.splitlines() if 'instances hold' in l][0])
        return id, '\n   '.join(out)
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(d, ignore_errors=True)
todo = [r for r in R if not ids or any(r[0].startswith(i) for i in ids)]
bad = 0
with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for id, o in ex.map(one, todo):
        flag = 'VIOL' if 'violation' in o else 'FAIL' if ('EDIT' in o or 'BUILD' in o or 'TESTS' in o) else 'undec' if 'undecided:' in o else 'quiet'
        print(f'{flag:5} {id}', '' if flag == 'quiet' else '\n   ' + o, flush=True)
