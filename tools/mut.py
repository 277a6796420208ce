#!/usr/bin/env python3
"""development helper: mut.py ID file 'old' 'new' [n]  -- run a check against a scratch copy with one textual edit"""
import sys, os, subprocess, shutil
pid, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = '/tmp/mut-%d' % os.getpid()
os.makedirs(d)
try:
    subprocess.run('cd /repo && git ls-files -z | xargs -0 cp --parents -t %s' % d, shell=True, check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    parts = s.split(old)
    if len(parts) < 2:
        print('OLD NOT FOUND'); sys.exit(3)
    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, 'w').write(s)
    for x in pid.split(','):
        r = subprocess.run([sys.executable, '/verif/engine/run.py', x], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode()
        print('exit', r.returncode, '|', o[-900:] if r.returncode else o[-200:])
finally:
    shutil.rmtree(d)
