#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, level, technique, note,
         state=None, observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, level=level, technique=technique, note=note,
                  state=state or [], observe=observe or [], claimed=claimed, reason=reason))

exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                        'mechanism': [dict(name=a, where=b) for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py'))
    if p['claimed'] and have:
        checks.append({'property': p['id'], 'quick_cmd': './run %s quick' % p['id'],
                       'thorough_cmd': './run %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['reason'] or 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every check drives the public API (or interfaces the '
                    'existing tests import) of the code in /repo as it stands.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
