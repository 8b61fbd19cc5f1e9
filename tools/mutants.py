#!/usr/bin/env python3
# Samples small changes of the repository's files; prints those that build, pass the tests and alarm no check.
# usage: mutants.py N SEED FILE... (VCHK, J)
import os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf, threading, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VCHK = os.environ.get('VCHK', V + '/bin/vchk'); J = int(os.environ.get('J', '4'))
MUT = os.environ.get('MUT', '/tmp/mutate')
PROPS = {'lib/executor': 'C21,C22', 'lib/fullmath': 'C04,C04', 'lib/liquidity_amounts': 'C19,C19', 'lib/pool': 'C01,C09,C10,C11,C12',
 'lib/position': 'C09,C12', 'lib/prices': 'C20,C20', 'lib/sqrtprice_math': 'C03,C03', 'lib/strategy': 'C15,C16,C17,C18', 'lib/swapmath': 'C02,C02',
 'lib/tickdata': 'C06,C07,C08,C12', 'lib/tickmath': 'C05,C05', 'lib/transaction': 'C26,C26', 'main.go': 'C23,C24,C25,C26,C27,C28', 'uint256/conversion.go': 'C31,C31',
 'uint256/div.go': 'C30,C30', 'uint256/mod.go': 'C30,C30', 'uint256/uint256.go': 'C29,C30,C31'}
def props(f):
    for k in PROPS:
        if f.startswith(k): return PROPS[k]
n, seed, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
rnd = random.Random(seed)
todo = []
for f in files:
    ms = [l.split(' ', 2) for l in subprocess.run([MUT, '/repo/' + f], capture_output=True, text=True).stdout.splitlines()]
    rnd.shuffle(ms)
    todo += [(f, int(a), int(b), c) for a, b, c in ms[:n]]
loc = threading.local(); dirs = []
def tree():
    if not hasattr(loc, 'd'):
        loc.d = tempfile.mkdtemp(prefix='mut'); dirs.append(loc.d)
        subprocess.run(['cp', '-a', '/repo', loc.d + '/repo'], check=True)
        os.makedirs(loc.d + '/verif'); os.symlink(V + '/checker', loc.d + '/verif/checker')
        open(loc.d + '/verif/KNOWN_FINDINGS', 'w')
    return loc.d
ENV = dict(os.environ, GOFLAGS='-mod=mod -buildvcs=false')
STABLE = json.load(open('/opt/vp/BASELINE.json'))
def one(t):
    f, k, line, what = t
    d = tree(); r = d + '/repo'; path = f'{r}/{f}'
    orig = open('/repo/' + f).read()
    m = subprocess.run([MUT, '/repo/' + f, str(k)], capture_output=True, text=True)
    if m.returncode: return None
    base = subprocess.run(['gofmt'], input=orig, capture_output=True, text=True).stdout
    if m.stdout == base: return None
    try:
        open(path, 'w').write(m.stdout)
        if subprocess.run(['go', 'build', './...'], cwd=r, capture_output=True, env=ENV).returncode: return 'nobuild', t, ''
        try: c = subprocess.run([VCHK, '-prop', props(f), '-repo', r, '-verif', d + '/verif'], capture_output=True, text=True, errors='replace', timeout=900)
        except subprocess.TimeoutExpired: return 'TIMEOUT', t, ''
        if c.returncode == 1: return 'caught', t, ''
        df = ''.join(x for x in difflib.unified_diff(base.splitlines(1), m.stdout.splitlines(1), n=0) if not x.startswith(('---', '+++')))
        try:
            p = subprocess.run(['bash', '-c', 'go test -timeout 60s ./... 2>&1 | grep -E "^(---|\\s+---) FAIL|^panic|^FAIL"'], cwd=r, capture_output=True, text=True, errors='replace', env=ENV, timeout=120)
        except subprocess.TimeoutExpired: return 'killed', t, df
        base_fail = BASEFAIL
        fails = {x.strip() for x in p.stdout.splitlines() if 'FAIL:' in x}
        fails = {x.split(' (')[0] for x in fails} - base_fail
        if fails: return 'killed', t, df + c.stdout[-300:]
        return 'SURVIVED', t, df + '\n'.join(x[:200] for x in c.stdout.splitlines() if 'undecided' in x)
    finally: open(path, 'w').write(orig)
p = subprocess.run(['bash', '-c', 'go test ./... 2>&1 | grep -E "FAIL:"'], cwd='/repo', capture_output=True, text=True, errors='replace', env=ENV)
BASEFAIL = {x.strip().split(' (')[0] for x in p.stdout.splitlines()}
count = {}
with cf.ThreadPoolExecutor(J) as ex:
    for x in ex.map(one, todo):
        if not x: continue
        count[x[0]] = count.get(x[0], 0) + 1
        if x[0] in ('SURVIVED', 'TIMEOUT', 'killed'): print(x[0], *x[1]); print(x[2], flush=True)
print(count)
for d in dirs: shutil.rmtree(d)
