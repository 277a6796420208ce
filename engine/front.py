"""Front end: turn /repo's current working tree into a resolved program model.

meson (scratch build dir) -> compile_commands -> ragel outputs -> clang -O0 -g bitcode
-> lixtract (SSA + debug-info field names) -> JSON -> Program objects.
Nothing is executed from /repo; nothing in /repo is written.
"""
import os, sys, json, shlex, shutil, subprocess, tempfile, atexit, re, hashlib
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {'PATH': '/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8',
       'CC': 'gcc', 'CXX': 'g++', 'PYTHONDONTWRITEBYTECODE': '1'}


class AnalysisBroken(Exception):
    """the analysis itself cannot give an answer (never reported as pass or violation)"""


def _run(cmd, cwd=None, what=''):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise AnalysisBroken('%s failed: %s\n%s' % (what, ' '.join(cmd), p.stdout.decode('utf8', 'replace')[-3000:]))
    return p.stdout


def _tool():
    t = os.path.join(VERIF, 'build', 'lixtract')
    _run(['bash', os.path.join(VERIF, 'tools', 'build.sh')], what='building the extractor')
    return t


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='liverif-')
        atexit.register(self.clean)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def configure(scr):
    """meson setup in a scratch directory; returns the compile commands"""
    mb = os.path.join(scr.dir, 'mb')
    _run(['meson', 'setup', mb, REPO, '--buildtype=debugoptimized', '--wrap-mode=nodownload', '-Dwerror=false'],
         what='meson setup')
    cc = json.load(open(os.path.join(mb, 'compile_commands.json')))
    gen = [c['file'] for c in cc if not c['file'].startswith('../') and not os.path.isabs(c['file'])]
    if gen:
        _run(['ninja', '-C', mb] + gen, what='generating ragel parsers')
    return mb, cc


def overlay(scr):
    """copy of the project headers in which every union is a struct, so that the members of
    tagged unions stay distinguishable in the IR (the code is only analysed, never run)"""
    src = os.path.join(REPO, 'include')
    dst = os.path.join(scr.dir, 'inc')
    for root, _, fs in os.walk(src):
        rel = os.path.relpath(root, src)
        d = os.path.join(dst, rel)
        os.makedirs(d, exist_ok=True)
        for f in fs:
            if f.endswith('.h'):
                t = open(os.path.join(root, f), encoding='latin-1').read()
                if f != 'hedley.h':
                    t = re.sub(r'\bunion\b', 'struct', t)
                open(os.path.join(d, f), 'w', encoding='latin-1').write(t)
    return dst


def compile_all(scr, want=None):
    """-> list of (tu, json path). tu is the path below /repo (the .rl for generated units)"""
    tool = _tool()
    mb, cc = configure(scr)
    inc = overlay(scr)
    jobs = []
    seen = set()
    for c in cc:
        f = c['file']
        absf = os.path.normpath(os.path.join(c['directory'], f))
        out = c['output']
        if '/unittests/' in out or out.startswith('tests/') or out.startswith('src/unittests'):
            continue
        if absf.startswith(mb + '/'):
            base = os.path.basename(absf)[:-2] + '.rl'
            grp = out.split('/')[1]
            tu = 'src/%s/%s' % (grp, base)
        else:
            tu = os.path.relpath(absf, REPO)
        if not tu.startswith('src/'):
            continue
        if tu in seen:
            continue
        seen.add(tu)
        if want and not want(tu):
            continue
        args = shlex.split(c['command'])[1:]
        na = []
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-MD', '-c', '-g', '-pthread') or a.startswith('-W') or a.startswith('-O') or a.startswith('-fdiag'):
                i += 1
                continue
            if a in ('-MQ', '-MF', '-o'):
                i += 2
                continue
            if a.startswith('-isystem') and os.path.normpath(os.path.join(c['directory'], a[8:])) == os.path.join(REPO, 'include'):
                na.append('-isystem' + inc)
                i += 1
                continue
            na.append(a)
            i += 1
        na = [a for a in na if a != f]
        key = tu.replace('/', '_')
        bc = os.path.join(scr.dir, key + '.bc')
        js = os.path.join(scr.dir, key + '.json')
        cmd = ['/usr/bin/clang-18', '-O0', '-g', '-w', '-emit-llvm', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-Wno-everything', '-fno-discard-value-names'] \
            + na + ['-c', f, '-o', bc]
        jobs.append((tu, cmd, c['directory'], bc, js))

    def one(j):
        tu, cmd, cwd, bc, js = j
        _run(cmd, cwd=cwd, what='compiling ' + tu)
        _run([tool, bc, js], what='extracting ' + tu)
        os.unlink(bc)
        return tu, js
    with ThreadPoolExecutor(8) as ex:
        return sorted(ex.map(one, jobs)), mb, inc


if __name__ == '__main__':
    import time
    t = time.time()
    s = Scratch()
    r, mb, inc = compile_all(s)
    print(len(r), time.time() - t)
    print(sum(os.path.getsize(j) for _, j in r) / 1e6, 'MB')
