#!/usr/bin/env python3
"""development helper: seed.py new ID PROP 'needs' 'breaks' file 'old' 'new' [n] < demo.py   create /verif/seeded/ID
                       seed.py confirm [ID...]   build + tests + demo on a scratch copy, clean and patched
                       seed.py checks [ID...]    run the property's check against the patched scratch copy"""
import sys, os, subprocess, json, shutil, tempfile
S = '/verif/seeded'
SCR = '/tmp/seedrepo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def sync():
    if not os.path.exists(SCR):
        sh('git clone -q /repo ' + SCR)
    sh('cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % SCR)


def build():
    sh('cd %s && rm -f x' % SCR)
    if not os.path.exists(SCR + '/_build/build.ninja'):
        sh('cd %s && CC=gcc CXX=g++ meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false' % SCR)
    r = sh('cd %s && ninja -C _build' % SCR)
    return r.returncode == 0, r.stdout.decode()[-2000:]


def tests():
    r = sh('cd %s && mkdir -p _build/meson-logs; meson test -C _build --no-rebuild --timeout-multiplier 10' % SCR)
    return r.returncode == 0, r.stdout.decode()[-1500:]


def demo(i):
    d = tempfile.mkdtemp(prefix='sd-')
    for f in os.listdir(os.path.join(S, i)):
        if f not in ('meta.json', 'patch.diff'):
            shutil.copy(os.path.join(S, i, f), d)
    r = sh('cd %s && timeout 300 bash %s/demo.sh' % (SCR, d))
    shutil.rmtree(d)
    return r.returncode, r.stdout.decode()[-1500:]


cmd = sys.argv[1]
if cmd == 'new':
    i, prop, needs, breaks, f, old, new = sys.argv[2:9]
    n = int(sys.argv[9]) if len(sys.argv) > 9 else 0
    dm = sys.stdin.read()
    sync()
    p = os.path.join(SCR, f)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < n + 2:
        sys.exit('old text not found')
    open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(sh('cd %s && git diff' % SCR).stdout)
    open(d + '/demo.py', 'w').write(dm)
    shutil.copy('/verif/tools/seedlib/lib.py', d + '/lib.py')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    sync()
    sys.argv = [sys.argv[0], 'confirm', i]
    cmd = 'confirm'
if cmd == 'confirm':
    ids = sys.argv[2:] or sorted(os.listdir(S))
    sync()
    ok, o = build()
    assert ok, o
    clean = {i: demo(i) for i in ids}
    for i in ids:
        sync()
        r = sh('cd %s && git apply %s/%s/patch.diff' % (SCR, S, i))
        if r.returncode:
            print(i, 'PATCH DOES NOT APPLY', r.stdout.decode())
            continue
        ok, o = build()
        if not ok:
            print(i, 'BUILD FAILED', o)
            continue
        t, to = tests()
        pd = demo(i)
        good = clean[i][0] == 0 and pd[0] not in (0, 99) and t
        print(i, 'CONFIRMED' if good else 'BAD', 'clean=%d patched=%d tests=%s' % (clean[i][0], pd[0], t), '' if good else (clean[i][1], pd[1], to if not t else ''), pd[1].strip()[-200:] if good else '')
    sync()
if cmd == 'checks':
    ids = sys.argv[2:] or sorted(os.listdir(S))
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        d = tempfile.mkdtemp(prefix='sc-')
        try:
            sh('cd /repo && git ls-files -z | xargs -0 cp --parents -t %s && cd %s && git init -q . && git apply %s/%s/patch.diff' % (d, d, S, i))
            prop = json.load(open('%s/%s/meta.json' % (S, i)))['property']
            r = subprocess.run([sys.executable, '/verif/engine/run.py', prop], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/.ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return i, prop, r.returncode, r.stdout.decode()[-500:]
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(4) as ex:
        for i, p, rc, o in ex.map(one, ids):
            print(i, p, 'CAUGHT' if rc == 1 else 'MISSED exit=%d\n%s' % (rc, o))
