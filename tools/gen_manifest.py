#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = json.load(open(os.path.join(H, 'tools', 'technique.json')))
checks, na = [], []
for line in open(os.path.join(H, 'properties.jsonl')):
    r = json.loads(line)
    i = r['id']
    if os.path.exists(os.path.join(H, 'vf', 'props', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append({
            'property': i, 'quick_cmd': 'bash check.sh ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough bash check.sh ' + i,
            'technique': t.get('t', 'property-based testing: Hypothesis-generated inputs against an explicit oracle'),
            'level': 'exploration',
            'level_note': t.get('n', 'Random structured search with shrinking; it samples the input space, it does not '
                                     'exhaust it. Trusts numpy/scipy linear algebra used by the oracle.')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Checks import the library from /repo/products with the installed PyPy; nothing is built. '
                    'VERIF_TIER=thorough selects the larger budgets. No hooks in /repo.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
