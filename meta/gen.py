#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (one place keeps both in step)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, script=None, technique=None, note=None, na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'hook_needed': None}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3-vt checks/%s.py' % script,
                       'thorough_cmd': 'python3-vt checks/%s.py --thorough' % script,
                       'evidence_file': 'evidence/%s.json' % id, 'technique': technique, 'level': 'other',
                       'level_note': note})


S = 'source/himalaya/'
HIERS = [S + 'hierarchies/%s.cpp' % h for h in
         'H3 H32q2g H3q22g H4 H5 H5g1 H6 H6b H6b2qg2 H6bq22g H6bq2g2 H6g2 H9 H9q2'.split()]
exec(open(os.path.join(ROOT, 'meta/entries.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': CHECKS, 'not_applicable': NA}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(P), 'properties,', len(CHECKS), 'checks,', len(NA), 'not applicable')
