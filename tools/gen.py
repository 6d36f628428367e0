#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/Argos/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, tech=tech, na=na, note=note))


STEP = ('path-sensitive typestate / effect analysis of the parse step over the clang CFGs of the whole library '
        '(interprocedural, constant and alias propagation, loop-completeness summaries)')
IN, CF, HI = 'inputs', 'configurations', 'histories'

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks, na = [], []
for p in P:
    rule = os.path.join(V, 'rules', p['id'].lower() + '.py')
    if p['na'] is None and os.path.exists(rule):
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['tech'], 'level': 'other',
                       'level_note': p['note'] or 'static over-approximation of all paths of the named functions in the '
                       'current sources; leaf behaviour of the standard library is modelled, not verified'})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'the check is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they parse /repo with clang (no code of the library is run) and analyse the '
           'separate sources and the single-header build of the library alike. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
