#!/usr/bin/env python3
"""Decide one property from /repo's current source.   run.py <ID>
exit 0: every obligation discharged (or listed as a known finding); exit 1: VIOLATION line(s); exit 2: no answer."""
import sys, os, json, time, importlib, traceback
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':      # same exploration order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'rules'))
import front
from front import AnalysisBroken, VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = []          # (rule, where, ok, msg, trail, key)
        self.cov = {}
        self.fns = set()
        self.rules = []
        self.notes = []
        self.broken = []
        self.stats = {'states': 0, 'joins': 0, 'paths_ends': 0, 'functions_inlined': 0}

    def rule(self, name, text):
        self.rules.append('%s: %s' % (name, text))

    def ok(self, rule, where):
        self.obl.append((rule, where, True, None, None, None))

    def bad(self, rule, where, msg, trail=None, key=None):
        """key: stable identification of the violating construct (no line numbers)"""
        self.obl.append((rule, where, False, msg, trail, key or '%s|%s' % (rule, where.split(':')[0])))

    def check(self, rule, where, cond, msg, trail=None, key=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, msg, trail, key)

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def floor(self, what, n, minimum):
        """instance count below the number confirmed by hand: the rule has gone blind"""
        self.cov[what] = n
        if n < minimum:
            self.broken.append('%s: %d instances, at least %d expected — the analysis no longer sees the code it was written for' % (what, n, minimum))

    def used(self, fn):
        self.fns.add(fn.key)

    def absint(self, ai):
        self.fns.add(ai.fn.key)
        self.fns |= set(ai.inlined)
        self.stats['states'] += ai.stats['states']
        self.stats['joins'] += ai.stats['joins']
        self.stats['paths_ends'] += ai.stats['rets']
        self.stats['functions_inlined'] += len(ai.inlined)

    def take(self, ai, rule, where=None):
        """turn the violations an abstract interpretation reported into obligations"""
        self.absint(ai)
        for k, (ins, msg, trail) in ai.viol.items():
            self.bad(rule, ins.loc(), '%s (in %s, analysed from %s)' % (msg, ins.owner.name, ai.fn.name), trail,
                     key='%s|%s|%s' % (rule, ins.owner.name, msg))


def known(pid):
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, desc = rest.split(' :: ', 1)
                r[key[len('key='):]] = desc
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid, tier)
    try:
        mod.check(ctx)
    except AnalysisBroken as e:
        ctx.broken.append(str(e))
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % pid)
        return 2
    kn = known(pid)
    if ctx.broken and not any(not o[2] and o[5] not in kn for o in ctx.obl):
        for b in ctx.broken:
            print('ANALYSIS-BROKEN property=%s: %s' % (pid, b))
        return 2
    viol = [o for o in ctx.obl if not o[2]]
    new = [o for o in viol if o[5] not in kn]
    old = [o for o in viol if o[5] in kn]
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for k in sorted({o[5] for o in old}):
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    replay = os.path.join(ev, pid + '.violations.txt')
    if new:
        with open(replay, 'w') as f:
            for rule, where, _, msg, trail, key in new:
                f.write('rule %s at %s\n  %s\n  key=%s\n' % (rule, where, msg, key))
                if trail:
                    f.write('  path: ' + ' -> '.join(trail) + '\n')
                f.write('\n')
    elif os.path.exists(replay):
        os.unlink(replay)
    byrule = {}
    for o in ctx.obl:
        b = byrule.setdefault(o[0], {'obligations': 0, 'discharged': 0})
        b['obligations'] += 1
        b['discharged'] += 1 if o[2] else 0
    level = getattr(mod, 'LEVEL', 'other')
    cov = {'explanation': getattr(mod, 'EXPLAIN', ''), 'rules': ctx.rules, 'obligations': len(ctx.obl),
           'discharged': sum(1 for o in ctx.obl if o[2]), 'by_rule': byrule, 'functions_analysed': len(ctx.fns),
           'abstract_states': ctx.stats['states'], 'path_ends': ctx.stats['paths_ends'],
           'samples': ['%s @ %s' % (o[0], o[1]) for o in ctx.obl[:12]], 'functions': sorted(ctx.fns)[:60],
           'known_findings': sorted({o[5] for o in old}), 'notes': ctx.notes}
    cov.update(ctx.cov)
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
               'wall_s': round(time.time() - t0, 2), 'violations': len(new)}, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('property=%s obligations=%d discharged=%d functions=%d states=%d %.1fs' % (pid, len(ctx.obl), cov['discharged'], len(ctx.fns), ctx.stats['states'], time.time() - t0))
    if not ctx.obl:
        print('ANALYSIS-BROKEN property=%s: no obligations' % pid)
        return 2
    for rule, where, _, msg, trail, key in new[:20]:
        print('  %s at %s: %s' % (rule, where, msg))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
