#!/usr/bin/env python3
"""single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, design, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, design=design,
                  observe=observe, state=state))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None, None)
    NA.append((id, reason))


CAUGHT = {}    # planted bugs that are not caught by the check of their property
exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

P.sort(key=lambda p: p['id'])
nas = {i for i, _ in NA}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []
for p in P:
    if p['id'] in nas:
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 engine/run.py ' + p['id'], 'thorough_cmd': 'python3 engine/run.py ' + p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA)],
           'notes': 'Static analysis only; /repo is never executed by a check. No hooks are needed. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
head = open(os.path.join(V, 'tools', 'design_head.md')).read()
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write(head + '\n## Properties\n\n')
    for p in P:
        f.write('### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
        if p['id'] in nas:
            f.write('Not applicable: %s\n\n' % dict(NA)[p['id']])
        else:
            f.write('%s\n\nTechnique: %s. Assurance: %s\n\n' % (re.sub(r'\s*\n\s*', ' ', p['design'].strip()), p['technique'], p['note']))
    tail = os.path.join(V, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        f.write(open(tail).read())
    sd = os.path.join(V, 'seeded')
    f.write('\n## Planted bugs\n\nEach was confirmed in a scratch copy (builds, passes the tests, the demonstration fails with it and passes without it) and run against the check of its property. Besides these, mutants/*.py hold small edits, both breaking and behaviour-preserving, that were run through the checks during development (tools/mutbatch.py).\n\n| bug | property | caught by | needs |\n|---|---|---|---|\n')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        f.write('| %s | %s | %s | %s |\n' % (n, m['property'], CAUGHT.get(n, m['property'] + ' check'), m['needs'].replace('|', '/')))
print(len(P), 'properties,', len(checks), 'checks')
