"""MANIFEST.json from lib/plan.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib')
import plan
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        note = plan.NOTES.get(i, plan.DEFAULT_NOTE)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification (TLC) bound to the code: ' + ', '.join(
                           dict.fromkeys(c.name for c in plan.PLAN[i])),
                       'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': i, 'reason': plan.NOT_APPLICABLE.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: output_mode="all" and the public classes expose the state.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
