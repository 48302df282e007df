#!/usr/bin/env python3-vt
"""Undoes each repair recorded in KNOWN_FINDINGS.txt in a scratch copy of
/repo, and shows whether the quick check of its property reports it.
With --save, the shrunk input is kept as a regression."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
save = '--save' in sys.argv
only = [a for a in sys.argv[1:] if not a.startswith('-')]
root = tempfile.mkdtemp(prefix='revert-')
try:
    for line in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        if not line.startswith('fixed: '):
            continue
        _, p, h, what = line.strip().split(' ', 3)
        pid = p.split('=')[1]
        if only and h not in only and pid not in only:
            continue
        copy = os.path.join(root, h)
        subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
        r = subprocess.run(['git', '-C', copy, 'revert', '-n', h],
                           capture_output=True, text=True)
        how = 'reverted'
        if r.returncode:
            subprocess.run(['git', '-C', copy, 'revert', '--abort'],
                           capture_output=True)
            subprocess.run(['git', '-C', copy, 'checkout', '-q', '-f',
                            h + '~1'], check=True)
            how = 'as before it'
        r = subprocess.run(
            ['python3-vt', os.path.join(HERE, 'check.py'), pid, 'quick'],
            env=dict(os.environ, XIGT_REPO=copy, VERIF_SEED='1',
                     VF_SHRINK_SECONDS='10'), cwd=HERE,
            capture_output=True, text=True)
        v = [l.split('replay=')[1] for l in r.stdout.splitlines()
             if l.startswith('VIOLATION')]
        print('%s %s %-12s exit %d, %d replays: %s'
              % (h, pid, how, r.returncode, len(v), what), flush=True)
        if save and how == 'reverted':
            d = os.path.join(HERE, 'regressions', pid)
            os.makedirs(d, exist_ok=True)
            for k, f in enumerate(v):
                rec = json.load(open(f))
                rec.pop('message', None)
                with open(os.path.join(d, '%s-%d.json' % (h, k)), 'w') as o:
                    json.dump(rec, o, indent=1)
                    o.write('\n')
        shutil.rmtree(copy)
finally:
    shutil.rmtree(root)
