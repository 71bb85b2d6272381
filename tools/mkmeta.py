"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ids = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(meta.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = len(re.findall(r'[.](?: |$)', p['statement']))
        assert n <= 3, (p['id'], n)
        for x in p['files'] + [m[1] for m in p['mech']]:
            assert os.path.exists(os.path.join(R, x)), (p['id'], x)
        assert p['id'] not in ids
        ids.add(p['id'])
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
na = dict(meta.NOT)
checks = []
for p in sorted(meta.P, key=lambda p: p['id']):
    if p['id'] in na:
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"bin/check {p['id']} --tier quick",
                   'thorough_cmd': f"bin/check {p['id']} --tier thorough",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'],
                   'level': 'exploration',
                   'level_note': ('Every execution explored is judged by the oracle; the inputs are sampled, not enumerated. '
                                  + p['note']).strip()})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
           'notes': 'No hooks in /repo: the checks inject an out-of-tree build of the native library (plain, ASan+UBSan or TSan) through an import hook and observe the public API. Seeds come from VERIF_SEED.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'properties', len(checks), 'checks')
