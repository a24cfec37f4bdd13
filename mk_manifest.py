"""writes MANIFEST.json from the table below"""
import json, os
DONE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.json')))
checks = []
na = []
for i in range(1, 21):
    p = 'C%02d' % i
    d = DONE[p]
    if 'na' in d:
        na.append({'property': p, 'reason': d['na']})
        continue
    c = {'property': p, 'quick_cmd': 'python3 sa/run.py %s --tier quick' % p, 'thorough_cmd': 'python3 sa/run.py %s --tier thorough' % p,
         'technique': d['technique'], 'level': d.get('level', 'other'), 'level_note': d['note'], 'evidence_file': 'evidence/%s.json' % p}
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys"', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
