#!/usr/bin/python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from meta.props import P
have = lambda i: os.path.exists('%s/vf/checks/%s.py' % (V, i.lower()))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        if not have(p['id']) and not p['na']: continue
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
        for x in p['files'] + [b for a, b in p['mech']]: assert os.path.exists('/repo/' + x), (p['id'], x)
m = {'version': 1, 'setup_cmd': 'python3 bin/vbuild.py --all',
     'hooks': {'guard': 'YADE_VERIF', 'enable': 'bin/vbuild.py compiles /repo with -DYADE_VERIF (no source uses it so far: no hooks were needed)', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 vf/runner.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 vf/runner.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note']} for p in P if have(p['id'])],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'Every check rebuilds /repo (lean configuration, content hashes) and drives the real library; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md
import importlib, re
rows = []
for p in P:
    if p['na']: rows.append('- **%s** %s - not applicable: %s' % (p['id'], p['title'], p['na'])); continue
    if not have(p['id']): continue
    m2 = importlib.import_module('vf.checks.' + p['id'].lower())
    rows.append('- **%s %s.** Decided by: %s. Quick bounds: %s. Thorough: %s. A trace: %s. Assumes: %s. Why tests cannot: %s.' % (p['id'], p['title'], p['technique'], m2.BOUNDS['quick'], m2.BOUNDS['thorough'], m2.RULE, '; '.join(m2.ASSUMPTIONS), p['why']))
d = open(V + '/meta/DESIGN.in.md').read().replace('@@TABLE@@', '\n'.join(rows))
rd = lambda f: open(V + '/meta/' + f).read() if os.path.exists(V + '/meta/' + f) else ''
d = d.replace('@@FINDINGS@@', rd('findings.md')).replace('@@SEEDS@@', rd('seeds.md'))
open(V + '/DESIGN.md', 'w').write(d)
