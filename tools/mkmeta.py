"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py (both are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from catalogue import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real rdtools source (pandas-level) + SMT (z3, cvc5 second opinion); counterexamples replayed on the plain code'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n[0] for n in NOT_APPLICABLE]:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs', 'configurations']), 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        assert len(d['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': f"bash check {p['id']} quick",
                   'thorough_cmd': f"bash check {p['id']} thorough",
                   'technique': TECH, 'level': 'model_checking', 'level_note': p['note']} for p in PROPS],
       'not_applicable': [{'property': p['id'], 'reason': r} for p, r in NOT_APPLICABLE]}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'checks')
