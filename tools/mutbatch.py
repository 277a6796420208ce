#!/usr/bin/env python3
"""development helper: mutbatch.py FILE.py... : each file defines M = [(expect, 'ID,ID', path, old, new[, n])]
expect: 1 (must be caught by at least one of the IDs), 0 (behaviour-preserving: every ID must stay quiet)"""
import sys, os, subprocess, shutil, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
sel = [a[1:] for a in sys.argv[1:] if a.startswith('=')]
jobs = []
for f in sys.argv[1:]:
    if not f.startswith('='):
        for k, m in enumerate(runpy.run_path(f)['M']):
            jobs.append((os.path.basename(f), k, m))


def one(j):
    fn, k, m = j
    if sel and str(k) not in sel:
        return None
    exp, ids, path, old, new = m[:5]
    n = m[5] if len(m) > 5 else 0
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        subprocess.run('cd /repo && git ls-files -z | xargs -0 cp --parents -t %s' % d, shell=True, check=True)
        edits = [(path, old, new, n)] if isinstance(path, str) else path
        if isinstance(path, str):
            pass
        for pth, o, nw, nn in edits:
            p = os.path.join(d, pth)
            s = open(p).read()
            parts = s.split(o)
            if len(parts) < 2 + nn:
                return fn, k, 'OLD-NOT-FOUND', exp, ids, o
            open(p, 'w').write(o.join(parts[:nn + 1]) + nw + o.join(parts[nn + 1:]))
        res = []
        for x in ids.split(','):
            ev = os.path.join(d, '.ev')
            r = subprocess.run([sys.executable, '/verif/engine/run.py', x], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res.append((x, r.returncode, r.stdout.decode()))
        if exp:
            good = any(r[1] == 1 for r in res)
        else:
            good = all(r[1] == 0 for r in res)
        return fn, k, 'ok' if good else 'WRONG', exp, ids, '\n'.join('   %s exit %d: %s' % (a, b, c[-700:]) for a, b, c in res) if not good or os.environ.get('V') else ''
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for r in ex.map(one, jobs):
        if r:
            print('%s#%d %s expect=%s %s %s' % r, flush=True)
