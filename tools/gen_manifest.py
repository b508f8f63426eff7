"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the harnesses compile the sources of /repo as they are (rand() and isTerminated() are the only '
              'injection points, both already there). python3 run.py replay FILE repeats a reported violation.'}
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    note = 'Within the bounds: ' + c['bounds']['quick'] + '. Assumes/trusts: ' + '; '.join(c['assumptions']) + '.'
    m['checks'].append({'property': pid, 'quick_cmd': 'python3 run.py check %s --tier quick' % pid,
                        'thorough_cmd': 'python3 run.py check %s --tier thorough' % pid,
                        'technique': 'model checking: ' + c['technique'], 'level': c['level'], 'level_note': note})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
