#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below; properties without a claim are not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS, NA = {}, {}


def claim(pid, technique, note):
    CLAIMS[pid] = (technique, note)


exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = [{'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --thorough' % p,
           'technique': CLAIMS[p][0], 'level': 'other', 'level_note': CLAIMS[p][1]} for p in ids if p in CLAIMS]
na = [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in ids if p not in CLAIMS]
for p in CLAIMS:
    assert p in ids and any(os.path.exists(os.path.join(V, 'rules', x + '.py')) for x in (p, p.lower())), p
json.dump({'version': 1, 'setup_cmd': 'python3 engine/facts.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
