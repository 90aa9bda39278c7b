"""Writes properties.jsonl and MANIFEST.json from tools/proplist.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from proplist import PROPS  # noqa: E402

COMMON = ('Every generated case is decided by an explicit oracle; nothing is '
          'claimed beyond the cases explored. ')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
for p in PROPS:
    if p.get('na'):
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash run_check.sh %s quick' % p['id'],
        'thorough_cmd': 'bash run_check.sh %s thorough' % p['id'],
        'technique': p['technique'], 'level': 'exploration',
        'level_note': COMMON + p['note']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
               'not_applicable': [{'property': p['id'], 'reason': p['na']}
                                  for p in PROPS if p.get('na')],
               'notes': 'No hooks: the checks observe the public interface '
                        'only. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
