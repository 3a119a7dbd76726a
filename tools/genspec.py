"""Write properties.jsonl and MANIFEST.json from spec/properties.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from spec.properties import P  # noqa: E402

P.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
lines, checks, na = [], [], []
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None},
    }))
    built = os.path.exists(os.path.join(V, 'checks', p['id'] + '.py'))
    if p['claim'] and built:
        checks.append({
            'property': p['id'], 'quick_cmd': f"bin/check {p['id']} quick", 'thorough_cmd': f"bin/check {p['id']} thorough",
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note'],
        })
    else:
        na.append({'property': p['id'], 'reason': p['reason'] or 'The check for this property is not built yet.'})
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'bin/setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Generated by tools/genspec.py from spec/properties.py. No hooks in /repo are needed.',
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
