"""Regenerates properties.jsonl and MANIFEST.json from tools/catalog.py (run by hand after editing the catalog)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
home = os.path.dirname(here)
sys.path.insert(0, here)
from catalog import PROPS, NOT_APPLICABLE

with open(os.path.join(home, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['for']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks = []
na = {q for q, _ in NOT_APPLICABLE}
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.sh %s --tier quick' % p['id'],
        'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'exploration',
        'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './run.sh --selftest', 'checks': checks,
     'not_applicable': [{'property': q, 'reason': r} for q, r in NOT_APPLICABLE],
     'notes': 'No hooks in /repo: every monitor observes the public interface from outside. See DESIGN.md.'}
with open(os.path.join(home, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    assert os.path.exists(os.path.join(home, 'vmon/props/%s.py' % p['id'].lower())) or p['id'] in na, p['id']
    print(p['id'], len([x for x in p['statement'].split('. ') if x]), p['title'])
