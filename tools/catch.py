#!/usr/bin/env python3
# Runs the check of each planted bug's property (or every check, with -all) on a scratch copy with the bug applied.
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = '-all' in args
want = [a for a in args if a != '-all']
lst = [l.split()[0] for l in subprocess.run([V + '/bin/vchk', '-list'], capture_output=True, text=True, errors='replace').stdout.splitlines()]
def one(i):
    d = f'{V}/seeded/{i}'
    m = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='catch'); r = w + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    os.symlink(V + '/checker', w + '/checker')
    try:
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True, errors='replace')
        if a.returncode: return f'{i}: patch does not apply: {a.stderr[:200]}'
        hit = []
        for p in (lst if allp else [m['property']]):
            c = subprocess.run([V + '/bin/vchk', '-prop', p, '-repo', r, '-verif', w], capture_output=True, text=True, errors='replace')
            if c.returncode == 1: hit.append(p)
            if p == m['property'] and c.returncode != 1: last = c.stdout
        return f"{i}: {'caught' if m['property'] in hit else 'MISSED'} by {' '.join(hit)}" + ('' if m['property'] in hit else '\n' + last[-500:])
    finally: shutil.rmtree(w)
ids = sorted(x for x in os.listdir(V + '/seeded') if not want or x in want)
with cf.ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, ids): print(x, flush=True)
