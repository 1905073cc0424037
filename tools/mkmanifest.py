#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from tools.props import P

checks, na, lines = [], [], []
for d, tech, note, reason in sorted(P, key=lambda x: x[0]['id']):
    pid = d['id']
    if reason:
        lines.append(d)
        na.append({'property': pid, 'reason': reason})
        continue
    if not os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')):
        print('no rule yet:', pid)
        continue
    mod = importlib.import_module('rules.' + pid.lower())
    lines.append(d)
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 run.py %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': tech,
        'level': 'other',
        'level_note': note or (
            'Decided from the source text on every run, without executing it: '
            'each obligation is discharged by a normal-form or induction '
            'argument over all inputs, or over every point of the finite '
            'abstract domain the rule states (DESIGN.md), or refuted with '
            'the construct that breaks it; what cannot be decided is reported '
            'as undecided in the evidence and raises no alarm (none on the '
            'committed tree). Assumes: ' +
            '; '.join(getattr(mod, 'ASSUMES', ())) + '.'),
    })
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in lines:
        f.write(json.dumps(d) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 -m compileall -q sa rules run.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'Pure static analysis of the Python/Cython source in /repo with '
              'the Python standard library; nothing is built or executed. '
              'No hooks. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not applicable')

import subprocess
subprocess.check_call([sys.executable, os.path.join(HERE, 'tools', 'mkdesign.py')])
