#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from properties.jsonl and vf/props."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import target
target.setup()
from vf import core

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(HERE, 'vf/props/%s.py' % pid.lower())):
        na.append({'property': pid, 'reason': 'not built yet'})
        continue
    mod = core.load_module(pid)
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt check.py %s quick' % pid,
        'thorough_cmd': 'python3-vt check.py %s thorough' % pid,
        'technique': 'property-based testing (Hypothesis): '
                     + mod.TECHNIQUE,
        'level': 'exploration',
        'level_note': 'Generated-input search, no proof. ' + mod.RULE
                      + (' Assumes: ' + '; '.join(mod.ASSUMPTIONS) + '.'
                         if getattr(mod, 'ASSUMPTIONS', None) else ''),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3-vt check.py --selftest',
    'checks': checks,
    'not_applicable': na,
    'notes': 'The code under test is pure Python and is imported directly '
             'from /repo\'s working tree at every run; no hooks are needed. '
             'See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
